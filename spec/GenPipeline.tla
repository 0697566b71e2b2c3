----------------------------- MODULE GenPipeline -----------------------------
(* Writes every pair of tokens of MCPipeline, for real token matchers to prepare *)
EXTENDS MCPipeline, Json, IOUtils
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq({ << [p |-> p, o |-> o[1]], [p |-> q, o |-> o[2]] >> : p \in Patterns, q \in Few, o \in Orders }))
GenInit == FALSE /\ Init
=============================================================================
