--------------------------- MODULE TraceTokenizer ---------------------------
(***************************************************************************)
(* Validates traces of real tokenizers.  A record is [toks, w, ops, obs]:  *)
(* the calls are "tok" (next_token), "sym" (next_symbol), "skip"           *)
(* (skip_input) and "it" (the iterator); for each the harness notes what   *)
(* was returned, and get_source_position and at_end_of_reader after it.    *)
(* The iterator is also asked for the "nth0" .. "nth3", for a "hint" of    *)
(* how many items there are << at least, at most or -1 >>, and, last of    *)
(* all and with nothing known of it afterwards, for the "rest" (or "fold", *)
(* which is the same), their "count" or the "last" of them.                *)
(*                                                                         *)
(* C04 judges the direct calls and C05 the iterator; each takes over where *)
(* the other kind of call left the tokenizer.  C21 judges all of them.      *)
(***************************************************************************)
EXTENDS Tokenizer, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)
Judge == IOEnv.PROP

VARIABLES c, l

Op  == Cases[c].ops[l]
Obs == Cases[c].obs.ev[l]
Mine == Judge = "C21" \/ Judge = (IF Op \in {"tok", "sym", "skip"} THEN "C04" ELSE "C05")
NthOf == [nth0 |-> 0, nth1 |-> 1, nth2 |-> 2, nth3 |-> 3]
AllOf == {"rest", "fold", "count", "last"}

Init == /\ c \in 1 .. Len(Cases) /\ l = 1
        /\ TokenizerInit(Cases[c].toks, Cases[c].w)

Calls(t) == CASE Op = "tok"  -> Obs.r = t /\ NextToken(t)
              [] Op = "sym"  -> Obs.r = (IF t = <<>> THEN <<>> ELSE << t[3] >>) /\ NextToken(t)
              [] Op = "skip" -> Obs.r = Skipped /\ Skip
              [] Op \in DOMAIN NthOf \cup {"it"} -> Obs.r = t /\ NextItem(t)
              [] Op = "hint" -> (LET n == Len(Items(pos)) IN Obs.r[1] <= n /\ (Obs.r[2] = -1 \/ n <= Obs.r[2])) = TRUE /\ UNCHANGED tokenizer
AllRest == /\ (LET s == Items(pos)
             IN  CASE Op \in {"rest", "fold"} -> Obs.r = s
                   [] Op = "count" -> Obs.r = << Len(s) >>
                   [] Op = "last"  -> Obs.r = (IF s = <<>> THEN <<>> ELSE s[Len(s)])) = TRUE
        /\ NextItem(<<>>)
Step == IF Op \in AllOf THEN AllRest ELSE
        /\ Calls(CASE Op \in {"skip", "hint"} -> <<>> [] Op \in DOMAIN NthOf -> Nth(pos, NthOf[Op]) [] Op = "it" -> FirstToken(pos) [] OTHER -> TokenAt(pos))
        /\ Obs.pos = pos'
        /\ EndMayBe(Obs.end, pos', failed') = TRUE
(* Someone else's call: carry on from where it ended, if that is anywhere *)
Follow == /\ pos' = Obs.pos
          /\ failed' = (failed \/ Obs.end)
          /\ UNCHANGED << toks, w >>
Astray == ~Mine /\ (Obs.pos > Len(w) \/ (Obs.end /\ Obs.pos < Len(w)))

Finished == l > Len(Cases[c].ops)
Next == IF Finished THEN UNCHANGED << tokenizer, c, l >>
        ELSE IF Mine THEN Step /\ l' = l + 1 /\ UNCHANGED c
        ELSE IF Astray THEN l' = Len(Cases[c].ops) + 1 /\ UNCHANGED << tokenizer, c >>
        ELSE Follow /\ l' = l + 1 /\ UNCHANGED c
Spec == Init /\ [][Next]_<< tokenizer, c, l >>
Ok == pos <= Len(w)
=============================================================================
