------------------------------- MODULE GenNdfa -------------------------------
(* Behaviours reaching every machine that MCNdfa builds *)
EXTENDS MCNdfa, Json
CONSTANT Points  \* only ranges of one symbol, which do not overlap unless they are equal
Labels == { r \in Ranges : ~Points \/ r[1] = r[2] }
VARIABLE hist
gen == << vars, hist >>
Emit(op) == hist' = Append(hist, op) /\ PrintT("@@" \o ToJson([k |-> K + 1, ops |-> hist']))
GenInit == Init /\ hist = <<>>
GenNext == /\ ops < MaxOps /\ ops' = ops + 1
           /\ \/ \E s, t \in Some : \E r \in Labels : AddTransition(s, r[1], r[2], t) /\ Emit(<< "t", s, r[1], r[2], t >>)
              \/ \E s \in Some : CreateState(s) /\ Emit(<< "c", s >>)
              \/ \E s, t \in Some : JoinStates(s, t) /\ Emit(<< "j", s, t >>)
              \/ \E s \in Some, o \in {0, 1} : SetOutput(s, o) /\ Emit(<< "o", s, o >>)
View == << ndfa, ops >>
=============================================================================
