------------------------------- MODULE MCKept -------------------------------
(* A tokenizer over a tape keeps no more than the longest match so far had  *)
(* to read, and that is no more than Kept says that it has to look at       *)
EXTENDS MCTokenizer
Kp == INSTANCE Kept

VARIABLES most     \* the longest that any match has read, or was skipped
KInit == Init /\ most = 0
KNext == Next /\ most' = Kp!Most(most, IF pc' # "idle" THEN hi' - begin' ELSE IF call' = "skip" THEN 1 ELSE 0)
KSpec == KInit /\ [][KNext]_<< toktape, most >>

KeepsNoMore == hi - lo <= most
Sensible    == \A k \in 1 .. Len(toks) : Kp!Possible(toks[k].p)
(* What is beyond a position was read by some match that began there or before *)
Looked      == Sensible => most <= Kp!Most(1, FoldLeft(LAMBDA a, i : Kp!Most(a, Kp!Look(Kp!Widened(toks), w, i) + 1), 0, [ i \in 1 .. Len(w) + 1 |-> i - 1 ]))
=============================================================================
