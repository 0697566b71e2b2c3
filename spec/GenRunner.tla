----------------------------- MODULE GenRunner -----------------------------
(* Every automaton of MCRunner with every word *)
EXTENDS MCRunner, Json, IOUtils, SequencesExt
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq({ [k |-> K + 1, b |-> a, w |-> v] : a \in Automata, v \in [1 .. MaxLen -> 0 .. K] }))
GenInit == FALSE /\ Init
GenNext == UNCHANGED vars
=============================================================================
