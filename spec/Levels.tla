------------------------------- MODULE Levels -------------------------------
(***************************************************************************)
(* Tokenizers that read tokenizers: the outputs of the tokens of one level *)
(* are the symbols of the next.  Read symbol by symbol, a tokenizer gives  *)
(* the output of the token where it is, and there it ends where there is   *)
(* none.                                                                   *)
(***************************************************************************)
EXTENDS Pattern

TokenIn(toks, w, i) == LET m == Match(toks, w, i) IN IF m.len > 0 THEN << i, i + m.len, m.o >> ELSE <<>>

(* What a level gives that reads w *)
TokenStep(a, i) == IF a.stuck \/ i < a.at THEN a
                   ELSE LET t == TokenIn(a.toks, a.w, i) IN IF t = <<>> THEN [a EXCEPT !.stuck = TRUE] ELSE [a EXCEPT !.at = t[2], !.out = Append(@, t[3])]
Given(toks, w) == FoldLeft(TokenStep, [at |-> 0, out |-> <<>>, stuck |-> FALSE, toks |-> toks, w |-> w], [ i \in 1 .. Len(w) |-> i - 1 ]).out
(* And the last of many *)
Top(levels, w) == FoldLeft(LAMBDA v, ts : Given(ts, v), w, levels)
=============================================================================
