---------------------------- MODULE GenThompson ----------------------------
(* Every compilation of MCThompson, for the real code to do *)
EXTENDS MCThompson, Json, IOUtils
GenInit == FALSE /\ Init
All  == { [ops |-> Calls[i], at |-> s, p |-> q] : i \in 1 .. Len(Calls), s \in 0 .. 3, q \in Patterns(Level) }
Made == { b \in All : b.at <= ApplyAll(Empty, b.ops).highest }
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Made))
GenNext == UNCHANGED vars
=============================================================================
