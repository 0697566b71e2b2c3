----------------------------- MODULE GenReaders -----------------------------
(* Every input and pipeline of the model, as cases *)
EXTENDS MCReaders, Json, IOUtils
GenInit == FALSE /\ Init
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq({ [k |-> K, script |-> s, layers |-> ls] :
                                             s \in UNION { [1 .. n -> 0 .. K - 1 \cup { End, Interrupted }] : n \in 0 .. MaxScript },
                                             ls \in UNION { [1 .. n -> Layers] : n \in 0 .. MaxLayers } }))
=============================================================================
