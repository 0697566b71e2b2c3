----------------------------- MODULE GenPatterns -----------------------------
(* Writes every pattern of MCPattern, for the real matcher to prepare *)
EXTENDS MCPattern, Json, IOUtils, SequencesExt
GenInit == p = 0 /\ w = 0 /\ R = 0 /\ ndJsonSerialize(IOEnv.OUT, SetToSeq(Patterns))
GenNext == UNCHANGED vars
=============================================================================
