----------------------------- MODULE MCPipeline -----------------------------
(* Two tokens of small patterns whose ranges overlap, over every word up to MaxLen *)
EXTENDS Pipeline, TLC
CONSTANTS Level, MaxLen

Atoms == { [t |-> "eps"], [t |-> "lit", s |-> << 1 >>], [t |-> "lit", s |-> << 1, 2 >>], [t |-> "rng", a |-> 0, b |-> 1], [t |-> "rng", a |-> 1, b |-> 2],
           [t |-> "any", ps |-> <<>>] }
Pairs(Q) == { << q, r >> : q \in Q, r \in Atoms } \cup { << r, q >> : q \in Q, r \in Atoms }
Grow(Q)  == Q \cup { [t |-> "inf", n |-> n, p |-> q] : n \in {0, 1}, q \in Q }
              \cup { [t |-> "rep", m |-> c[1], n |-> c[2], p |-> q] : c \in { << 0, 2 >>, << 1, 3 >>, << 1, 1 >> }, q \in Q }
              \cup { [t |-> "all", ps |-> q] : q \in Pairs(Q) } \cup { [t |-> "any", ps |-> q] : q \in Pairs(Q) }
Patterns == IF Level = 0 THEN Atoms ELSE IF Level = 1 THEN Grow(Atoms) ELSE Grow(Grow(Atoms))
Few      == { [t |-> "lit", s |-> << 1 >>], [t |-> "inf", n |-> 0, p |-> [t |-> "rng", a |-> 0, b |-> 1]], [t |-> "lit", s |-> << 2, 1 >>], [t |-> "eps"] }
Orders   == { << 0, 1 >>, << 1, 0 >>, << 0, 0 >> }

Init == \E p \in Patterns, q \in Few, o \in Orders : PipeInit(<< [p |-> p, o |-> o[1]], [p |-> q, o |-> o[2]] >>)
Next == Prepare \/ (Len(word) < MaxLen /\ \E x \in 0 .. 2 : Read(x))
Spec == Init /\ [][Next]_pipeline /\ WF_pipeline(Prepare)

Answers       == phase \in {"run", "over"} => RightAnswer
StopsInTime   == phase = "over" => NoMore
Deterministic == phase = "run" => RN!WellFormed(dfa)
Tidy          == phase = "run" => \A i \in 1 .. Len(dfa) : \A j \in 1 .. Len(dfa[i].tr) - 1 :
                     dfa[i].tr[j][2] + 1 = dfa[i].tr[j + 1][1] => dfa[i].tr[j][3] # dfa[i].tr[j + 1][3]
Prepared      == <>(phase # "compile" /\ phase # "determinise")
=============================================================================
