------------------------------ MODULE MCDrive ------------------------------
(***************************************************************************)
(* Every matcher of up to MaxState + 1 states over the symbols 0 .. K,     *)
(* driven over every word of up to MaxLen symbols: the protocol ends with  *)
(* the matcher's own answer having taken just what led to it, each symbol  *)
(* once and in order.                                                      *)
(***************************************************************************)
EXTENDS Drive, TLC, FiniteSets

CONSTANTS MaxState, K, MaxLen

VARIABLES m,      \* the matcher
          w,      \* what the source holds
          taken,  \* how much of it was read
          asked,  \* how often the source was asked
          fins,   \* how often the matcher was told of the end
          fed,    \* the symbols that the matcher was given
          pos
vars == << m, w, taken, asked, fins, fed, pos >>

States   == 0 .. MaxState
Decided  == { << "a", 2, 1 >>, << "r" >> }
Actions  == { << "m", s >> : s \in States } \cup Decided
Matchers == [start : { << "m", 0 >> } \cup Decided,
             nx    : [1 .. MaxState + 1 -> [1 .. K + 1 -> Actions]],
             fin   : [1 .. MaxState + 1 -> Decided]]
Words    == UNION { [1 .. n -> 0 .. K] : n \in 0 .. MaxLen }

Init == /\ m \in Matchers /\ w \in Words
        /\ taken = 0 /\ asked = 0 /\ fins = 0 /\ fed = <<>> /\ pos = Begin(m)

Read   == /\ MustRead(pos)
          /\ asked' = asked + 1
          /\ IF taken < Len(w) THEN pos' = AfterRead(pos, w[taken + 1]) /\ taken' = taken + 1
                               ELSE pos' = AfterRead(pos, NoSymbol) /\ UNCHANGED taken
          /\ UNCHANGED << m, w, fins, fed >>
Feed   == MustNext(pos) /\ pos' = AfterNext(m, pos) /\ fed' = Append(fed, pos[3]) /\ UNCHANGED << m, w, taken, asked, fins >>
Finish == MustFinish(pos) /\ pos' = AfterFinish(m, pos) /\ fins' = fins + 1 /\ UNCHANGED << m, w, taken, asked, fed >>
Return == MustReturn(pos) /\ pos' = AfterReturn(pos) /\ UNCHANGED << m, w, taken, asked, fins, fed >>
Next == Read \/ Feed \/ Finish \/ Return
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* One thing at a time *)
OneNext    == pos[1] # "done" => Cardinality({ x \in { << "read", MustRead(pos) >>, << "next", MustNext(pos) >>, << "fin", MustFinish(pos) >>, << "ret", MustReturn(pos) >> } : x[2] }) = 1
(* Each symbol once, in order, and none unread *)
FedInOrder == \E i \in {taken, taken - 1} : i >= 0 /\ fed = SubSeq(w, 1, i) /\ (pos[1] # "got" => i = taken)
Once       == fins <= 1 /\ (fins = 1 => taken = Len(w)) /\ asked = taken + (IF pos[1] = "end" \/ fins = 1 THEN 1 ELSE 0)
Comes      == pos[1] = "done" => pos[2] = Outcome(m, w).a /\ taken = Outcome(m, w).taken
Ends       == <>(pos[1] = "done")
=============================================================================
