---------------------------- MODULE GenRangeMap ----------------------------
(* Every set of ranges over 0 .. K *)
EXTENDS MCRangeMap, Json, IOUtils
GenInit == /\ rs = {} /\ stack = <<>> /\ result = <<>>
           /\ ndJsonSerialize(IOEnv.OUT, SetToSeq({ [k |-> K + 1, adds |-> Sorted(S)] : S \in { T \in SUBSET AllRanges : Cardinality(T) <= MaxRanges } }))
GenNext == UNCHANGED vars
=============================================================================
