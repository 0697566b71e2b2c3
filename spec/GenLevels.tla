----------------------------- MODULE GenLevels -----------------------------
(* Every stack of levels of the model over every word, with calls to the   *)
(* last tokenizer that end by iterating to the end                         *)
EXTENDS MCLevels, Json, IOUtils
CONSTANTS MaxOps
GenInit == FALSE /\ VInit
Calls == UNION { [1 .. n -> {"tok", "sym", "skip"}] : n \in 0 .. MaxOps }
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq({ [levels |-> ls, w |-> u, ops |-> os] : ls \in [1 .. Depth -> LevelSets], u \in Words, os \in Calls }))
=============================================================================
