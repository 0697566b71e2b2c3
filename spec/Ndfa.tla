-------------------------------- MODULE Ndfa --------------------------------
(* A machine being built, and the removal of overlaps *)
EXTENDS Machine

VARIABLE m
ndfa == m

NdfaInit == m = Empty

AddTransition(s, a, b, t) == m' = Add(m, s, a, b, t)
CreateState(s)            == m' = Create(m, s)
JoinStates(s, t)          == m' = Join(m, s, t)
SetOutput(s, o)           == m' = Set(m, s, o)

----------------------------------------------------------------------------
(* Removing overlaps, as a relation between what is reported of each state *)
(* (index s + 1) of a machine before and after                             *)

Moves(ts) == UNION { { << x, t[3] >> : x \in t[1] .. t[2] } : t \in ts }
RangesOf(r) == { << t[1], t[2] >> : t \in UNION { r[i] : i \in 1 .. Len(r) } }
NoOverlaps(r) == \A a, b \in RangesOf(r) : a = b \/ a[2] < b[1] \/ b[2] < a[1]
SameMoves(r, r2) == Len(r) = Len(r2) /\ \A i \in 1 .. Len(r) : Moves(r[i]) = Moves(r2[i])
=============================================================================
