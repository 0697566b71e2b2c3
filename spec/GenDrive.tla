------------------------------ MODULE GenDrive ------------------------------
(* Every matcher of MCDrive, to be driven over every word *)
EXTENDS MCDrive, Json, IOUtils, SequencesExt
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq({ [k |-> K + 1, m |-> x] : x \in Matchers }))
GenInit == FALSE /\ Init
GenNext == UNCHANGED vars
=============================================================================
