----------------------------- MODULE GenPrograms -----------------------------
(* Writes every program of MCCombinators, for the real combinators to run *)
EXTENDS MCCombinators
GenInit == q = 0 /\ R = {} /\ F = {} /\ ndJsonSerialize(IOEnv.OUT, SetToSeq(Programs))
GenNext == UNCHANGED vars
=============================================================================
