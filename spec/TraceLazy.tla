----------------------------- MODULE TraceLazy -----------------------------
(***************************************************************************)
(* Validates how much of its source a real match or tokenizer reads.  A    *)
(* record is [toks, w, top, ops, obs]: after each call the harness notes   *)
(* what was returned, the tokenizer's position, and how many times the     *)
(* source has been asked and how many symbols it has given.  The source    *)
(* would carry on after its end.                                           *)
(* With top = "match" each call matches what is left in the source; "sy"   *)
(* takes a symbol.                                                         *)
(***************************************************************************)
EXTENDS Lazy, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES c, l, need
vars == << c, l, need >>
Case == Cases[c]
Obs  == Case.obs.ev[l]
Fresh == [given |-> 0, asked |-> 0, pos |-> 0, r |-> <<>>]
Was  == IF l = 1 THEN Fresh ELSE Case.obs.ev[l - 1]
Tks  == Case.toks
W    == Case.w
ASSUME \A x \in 1 .. Len(Cases) : \A t \in 1 .. Len(Cases[x].toks) : Possible(Cases[x].toks[t].p)

Init == c \in 1 .. Len(Cases) /\ l = 1 /\ need = 0

(* Where the iterator has looked: up to the token that it found, or to the end *)
Upto == IF Obs.r = <<>> THEN Len(W) ELSE Obs.r[1]
May == CASE Case.top = "match" /\ Case.ops[l] = "sy" -> Least(Was.given + 1, Len(W))
         [] Case.top = "match"    -> Need(Tks, W, Was.given)
         [] Case.ops[l] = "skip"  -> Least(Was.pos + 1, Len(W))
         [] Case.ops[l] = "it"    -> NeedFrom(Tks, W, Was.pos, Upto)
         [] OTHER                 -> Need(Tks, W, Was.pos)
Finished == l > Len(Case.obs.ev)
(* What was read may have been for an earlier match *)
Next == IF Finished THEN UNCHANGED vars
        ELSE need' = (IF Case.top = "match" THEN May ELSE Most(need, May)) /\ l' = l + 1 /\ UNCHANGED c
Spec == Init /\ [][Next]_vars

Then == Case.obs.ev[l - 1]
NoFurther == l > 1 => Then.given <= need
(* What it returned, it has read *)
Enough    == l > 1 => IF Case.top = "match" THEN LET before == IF l = 2 THEN 0 ELSE Case.obs.ev[l - 2].given IN Then.given >= before + Most(Then.r[1], 0) ELSE Then.given >= Then.pos
(* Asked once for each symbol, and once for the end *)
Once      == l > 1 => Then.given <= Then.asked /\ Then.asked <= Then.given + 1 /\ (Then.asked > Then.given => Then.given = Len(W))
=============================================================================
