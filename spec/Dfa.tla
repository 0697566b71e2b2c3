-------------------------------- MODULE Dfa --------------------------------
(***************************************************************************)
(* Deterministic automata as a builder is given them: a sequence of blocks *)
(* [out |-> output or -1, tr |-> << << lowest, highest, target >>, .. >>], *)
(* block i + 1 being state i.                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

WellFormed(b) == /\ b # <<>>
                 /\ \A i \in 1 .. Len(b) :
                       /\ \A j \in 1 .. Len(b[i].tr) : /\ b[i].tr[j][1] <= b[i].tr[j][2]
                                                       /\ b[i].tr[j][3] \in 0 .. Len(b) - 1
                       /\ \A j \in 1 .. Len(b[i].tr) - 1 : b[i].tr[j][2] < b[i].tr[j + 1][1]

(* Where state d goes on symbol x: -1 for nowhere *)
Goes(b, d, x) == LET T == { j \in 1 .. Len(b[d + 1].tr) : b[d + 1].tr[j][1] <= x /\ x <= b[d + 1].tr[j][2] }
                 IN  IF T = {} THEN -1 ELSE b[d + 1].tr[CHOOSE j \in T : \A i \in T : j <= i][3]

(* The states that some others lead to, in any number of moves *)
RECURSIVE Leads(_, _)
Leads(b, D) == LET E == D \cup UNION { { b[d + 1].tr[j][3] : j \in 1 .. Len(b[d + 1].tr) } : d \in D }
               IN  IF E = D THEN D ELSE Leads(b, E)
Next1(b, d) == { b[d + 1].tr[j][3] : j \in 1 .. Len(b[d + 1].tr) }
=============================================================================
