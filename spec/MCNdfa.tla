------------------------------- MODULE MCNdfa -------------------------------
(***************************************************************************)
(* Every way of building a machine of up to MaxState + 1 states with up to *)
(* MaxOps calls.  What is reported is compared with the definition by      *)
(* paths, with the implementation's search (a stack and the states that    *)
(* were seen), and after removing overlaps (which replaces each range by   *)
(* the parts of the coarsest division of all of the ranges).               *)
(***************************************************************************)
EXTENDS Ndfa, TLC

CONSTANTS MaxState, MaxOps, K

VARIABLES ops
vars == << ndfa, ops >>
RM == INSTANCE RangeMap

Some == 0 .. MaxState
Ranges == { r \in (0 .. K) \X (0 .. K) : r[1] <= r[2] }

Init == NdfaInit /\ ops = 0
Next == /\ ops < MaxOps /\ ops' = ops + 1
        /\ \/ \E s, t \in Some : \E r \in Ranges : AddTransition(s, r[1], r[2], t)
           \/ \E s \in Some : CreateState(s)
           \/ \E s, t \in Some : JoinStates(s, t)
           \/ \E s \in Some, o \in {0, 1} : SetOutput(s, o)
Spec == Init /\ [][Next]_vars

(* There is a path of joins, step by step *)
RECURSIVE Path(_, _, _)
Path(s, t, n) == s = t \/ (n > 0 /\ \E j \in m.joins : j[1] = s /\ Path(j[2], t, n - 1))

(* The implementation's search, taking an arbitrary state from its stack *)
RECURSIVE Search(_, _)
Search(stack, seen) == IF stack = <<>> THEN seen
                       ELSE LET s == Head(stack)
                                next == { j[2] : j \in { k \in m.joins : k[1] = s } }
                                pushed == CHOOSE q \in [1 .. Cardinality(next) -> next] : { q[i] : i \in DOMAIN q } = next
                            IN  IF s \in seen THEN Search(Tail(stack), seen)
                                ELSE Search(pushed \o Tail(stack), seen \cup {s})

JoinsAgree == \A s \in Some : LET C == Reach({s}, m.joins)
                                IN  /\ C = { t \in Some : Path(s, t, MaxState) }
                                    /\ C = Search(<< s >>, {})

(* Removing overlaps *)
Parts == RM!Partition({ << t[2], t[3] >> : t \in m.trans })
Fixed(ts) == UNION { { << t[1], p[1], p[2], t[4] >> : p \in { q \in Parts : RM!Overlap(q, << t[2], t[3] >>) } } : t \in ts }
Report(ts) == [ i \in 1 .. Count(m) |-> LET C == Reach({i - 1}, m.joins) IN { << t[2], t[3], t[4] >> : t \in { u \in ts : u[1] \in C } } ]
FixWorks == LET f == Fixed(m.trans)
                again == RM!Partition({ << t[2], t[3] >> : t \in f })
            IN  /\ NoOverlaps(Report(f))
                /\ SameMoves(Report(m.trans), Report(f))
                /\ again = Parts \/ m.trans = {}
                /\ Fixed(f) = f
CountOk == \A t \in m.trans : t[1] < Count(m) /\ t[4] < Count(m)
=============================================================================
