----------------------------- MODULE MCThompson -----------------------------
(***************************************************************************)
(* The implementation's way of compiling does what it must, for all small  *)
(* patterns on a range of machines and from every state of them.           *)
(***************************************************************************)
EXTENDS Thompson, TLC
CONSTANT Level

Symbols == {0, 1}
Atoms == { [t |-> "eps"], [t |-> "lit", s |-> <<>>], [t |-> "lit", s |-> << 0 >>], [t |-> "lit", s |-> << 1, 0 >>], [t |-> "rng", a |-> 0, b |-> 1] }
Counts == { << 0, 0 >>, << 0, 1 >>, << 0, 2 >>, << 1, 2 >>, << 1, 3 >> }
RECURSIVE Patterns(_)
Patterns(n) == IF n = 0 THEN Atoms
               ELSE LET Q == Patterns(n - 1)
                        pairs == { << q, r >> : q \in Q, r \in IF n = 1 THEN Atoms ELSE { a \in Atoms : a.t # "eps" } }
                                 \cup { << r, q >> : q \in Q, r \in Atoms }
                    IN  Q \cup { [t |-> "inf", n |-> n1, p |-> q] : n1 \in {0, 1, 2}, q \in Q }
                          \cup { [t |-> "rep", m |-> c[1], n |-> c[2], p |-> q] : c \in Counts, q \in Q }
                          \cup { [t |-> "all", ps |-> q] : q \in pairs } \cup { [t |-> "any", ps |-> q] : q \in pairs }
                          \cup { [t |-> "all", ps |-> <<>>], [t |-> "any", ps |-> <<>>] }

(* Machines with loops, joins in a ring, shared states and outputs *)
Calls == << << >>,
            << << "t", 0, 0, 1, 0 >>, << "o", 0, 1 >> >>,
            << << "t", 0, 0, 0, 1 >>, << "t", 1, 1, 1, 0 >>, << "o", 1, 0 >> >>,
            << << "j", 0, 1 >>, << "j", 1, 0 >>, << "t", 1, 0, 0, 2 >>, << "t", 2, 0, 1, 1 >> >>,
            << << "t", 0, 0, 1, 2 >>, << "j", 2, 1 >>, << "t", 1, 1, 1, 1 >>, << "j", 1, 3 >>, << "o", 3, 2 >> >> >>
Machines == [ i \in 1 .. Len(Calls) |-> ApplyAll(Empty, Calls[i]) ]

VARIABLES old, start, p, res, So, Sn, G
vars == << old, start, p, res, So, Sn, G >>

Init == /\ \E i \in 1 .. Len(Calls) : old = Machines[i]
        /\ start \in States(old) /\ p \in Patterns(Level)
        /\ res = Compile(At(old, start), p)
        /\ \E q \in States(old) : So = Closed(old, {q}) /\ Sn = Closed(res.m, {q})
        /\ G = Begin(old, start, p, So)
Next == \E x \in Symbols : /\ So' = Follow(old, So, x) /\ Sn' = Follow(res.m, Sn, x)
                           /\ Sn' # {} 
                           /\ G' = Later(G, x) \cup Begin(old, start, p, So')
                           /\ UNCHANGED << old, start, p, res >>
Spec == Init /\ [][Next]_vars

NothingLost == \A x \in Symbols : Follow(res.m, Sn, x) = {} => Later(G, x) = {} /\ Follow(old, So, x) = {}
Before == SameBefore(old, {}, So, Sn)
There  == LeadsThere(So, Sn, G, res.s)
Kept   == Keeps(old, res.m)
=============================================================================
