------------------------------- MODULE Subset -------------------------------
(***************************************************************************)
(* The compiler's subset construction as a machine that works through a    *)
(* list, taking the newest set of states first.  A set may be on the list  *)
(* more than once and then gets more than one block: the last one made is  *)
(* the one that transitions are directed to.                               *)
(***************************************************************************)
EXTENDS Machine

VARIABLES m,       \* the machine to compile: its ranges are equal or disjoint
          todo,    \* sets still to be processed, newest last
          blocks   \* sets processed, in order
compiler == << m, todo, blocks >>

Labels(S)    == { << t[1], t[2] >> : t \in UNION { Reported(m, s) : s \in S } }
Via(S, r)    == { t[3] : t \in { u \in UNION { Reported(m, s) : s \in S } : u[1] = r[1] /\ u[2] = r[2] } }
Ascending(R) == SetToSortSeq(R, LAMBDA a, b : a[1] < b[1])
Done         == { blocks[i] : i \in 1 .. Len(blocks) }

CompileInit == todo = << {0} >> /\ blocks = <<>>
Process ==
    /\ todo # <<>>
    /\ LET S    == todo[Len(todo)]
           outS == Ascending(Labels(S))
           new  == SelectSeq([ i \in 1 .. Len(outS) |-> Via(S, outS[i]) ], LAMBDA T : T \notin Done \cup {{0}})
       IN  todo' = SubSeq(todo, 1, Len(todo) - 1) \o new /\ blocks' = Append(blocks, S)
    /\ UNCHANGED m

(* What is given to the builder once there is nothing left to process *)
IndexOf(S) == Largest({ i \in 1 .. Len(blocks) : blocks[i] = S }) - 1
OutOf(S)   == LET O == UNION { CanOutput(m, s) : s \in S } IN IF O = {} THEN -1 ELSE Least(O)
Block(S)   == [out |-> OutOf(S), tr |-> LET R == Ascending(Labels(S)) IN [ i \in 1 .. Len(R) |-> << R[i][1], R[i][2], IndexOf(Via(S, R[i])) >> ]]
Built      == [ i \in 1 .. Len(blocks) |-> Block(blocks[i]) ]
=============================================================================
