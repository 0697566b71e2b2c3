----------------------------- MODULE Tokenizer -----------------------------
(***************************************************************************)
(* A tokenizer: splits the word w into tokens, from left to right.  The    *)
(* token at a position is the longest non-empty match that starts there,   *)
(* with the lowest of the outputs that it has.                             *)
(***************************************************************************)
EXTENDS Pattern

VARIABLES toks,     \* what there is to recognise
          w,        \* the input
          pos,      \* symbols that have been consumed
          failed    \* something was asked for, but there was nothing left
tokenizer == << toks, w, pos, failed >>

TokenizerInit(ts, word) == toks = ts /\ w = word /\ pos = 0 /\ failed = FALSE

(* The token at a position, as << start, end, output >>, or <<>> if there is none *)
TokenAt(i) == LET m == Match(toks, w, i) IN IF m.len > 0 THEN << i, i + m.len, m.o >> ELSE <<>>

(* The first token that starts at i..j-1: symbols where no token starts are passed over *)
RECURSIVE FirstIn(_, _)
FirstIn(i, j) == CASE i >= j     -> <<>>
                   [] i + 1 = j  -> TokenAt(i)
                   [] OTHER      -> LET m == (i + j) \div 2
                                        t == FirstIn(i, m)
                                    IN  IF t # <<>> THEN t ELSE FirstIn(m, j)
FirstToken(i) == FirstIn(i, Len(w))

MoveTo(i, nothing) == /\ pos' = i
                      /\ failed' = (failed \/ (nothing /\ i = Len(w)))
                      /\ UNCHANGED << toks, w >>

(* next_token and next_symbol: the token here, or nothing, staying here *)
NextToken(t) == IF t # <<>> THEN MoveTo(t[2], FALSE) ELSE MoveTo(pos, TRUE)
(* skip_input: the symbol here *)
Skipped      == IF pos < Len(w) THEN << w[pos + 1] >> ELSE <<>>
Skip         == IF pos < Len(w) THEN MoveTo(pos + 1, FALSE) ELSE MoveTo(pos, TRUE)
(* The iterator: the first token from here on; if there is none, everything has been consumed *)
NextItem(t)  == IF t # <<>> THEN MoveTo(t[2], FALSE) ELSE MoveTo(Len(w), TRUE)

(* The n'th item from here on (the next is 0): the others are passed over *)
RECURSIVE Nth(_, _)
Nth(i, n) == LET t == FirstToken(i) IN IF n = 0 \/ t = <<>> THEN t ELSE Nth(t[2], n - 1)
(* All of them *)
RECURSIVE Items(_)
Items(i)  == LET t == FirstToken(i) IN IF t = <<>> THEN <<>> ELSE << t >> \o Items(t[2])

(* at_end_of_reader may only be true when all the input is consumed, and must be once something was asked for in vain *)
EndMayBe(b, at, didFail) == IF at < Len(w) THEN ~b ELSE (didFail => b)
=============================================================================
