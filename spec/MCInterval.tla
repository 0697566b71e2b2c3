----------------------------- MODULE MCInterval -----------------------------
(***************************************************************************)
(* The laws of ranges, and the way that the library computes with their    *)
(* ends: for every three ranges over 0 .. N and every symbol.              *)
(***************************************************************************)
EXTENDS Interval, TLC
CONSTANT N
VARIABLES r, q, s
Init == r \in Ranges(N) /\ q \in Ranges(N) /\ s \in Ranges(N)
Next == UNCHANGED << r, q, s >>

OverlapByEnds == Overlaps(r, q) = ~(r[2] < q[1] \/ r[1] > q[2])
IncludeByEnds == \A x \in 0 .. N : Includes(r, x) = (r[1] <= x /\ x <= r[2])
Joined(a, b)  == << IF b[1] < a[1] THEN b[1] ELSE a[1], IF b[2] < a[2] THEN a[2] ELSE b[2] >>
JoinByEnds    == \A j \in Ranges(N) : IsJoin(j, r, q, N) = (j = Joined(r, q))
Lattice       == /\ Joined(r, q) = Joined(q, r) /\ Joined(r, r) = r
                 /\ Joined(r, Joined(q, s)) = Joined(Joined(r, q), s)
                 /\ Overlaps(r, q) = Overlaps(q, r) /\ Overlaps(r, r)
                 /\ Overlaps(r, q) => Overlaps(r, Joined(q, s))
Total         == /\ (Compare(r, q) = 0) = (r = q)
                 /\ Compare(r, q) = -Compare(q, r)
                 /\ Compare(r, q) <= 0 /\ Compare(q, s) <= 0 => Compare(r, s) <= 0
=============================================================================
