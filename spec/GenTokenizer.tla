---------------------------- MODULE GenTokenizer ----------------------------
(* Every token set of MCTokenizer with every word and every sequence of    *)
(* calls, each ending by iterating to the end.                             *)
EXTENDS MCTokenizer, Json, IOUtils, SequencesExt
CONSTANTS MaxOps
Calls == UNION { [1 .. n -> {"tok", "sym", "skip", "it"}] : n \in 0 .. MaxOps }
Tail3 == [i \in 1 .. MaxLen + 2 |-> IF i = MaxLen + 2 THEN "tok" ELSE "it"]
Behaviours == { [toks |-> ts, w |-> word, ops |-> ops \o Tail3] : ts \in TokenSets \ {<<>>}, word \in Words, ops \in Calls }
GenInit == TTInit(<<>>, <<>>) /\ ndJsonSerialize(IOEnv.OUT, SetToSeq(Behaviours))
GenNext == UNCHANGED toktape
=============================================================================
