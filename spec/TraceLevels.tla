---------------------------- MODULE TraceLevels ----------------------------
(***************************************************************************)
(* Validates real tokenizers over tokenizers.  A record is                 *)
(*   levels   [toks, ..] from the source up                                *)
(*   heads    what reads the last of them, one or one for each half:       *)
(*            [top |-> "tok", toks, ..], or "plain" for nothing more       *)
(*   ops      << head, call >>, as for tokenizers; of a plain one "sym" is *)
(*            a symbol and "all" is all that there are                     *)
(* with what was returned, and the position and end for a tokenizer.       *)
(***************************************************************************)
EXTENDS Levels, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES c, l, word, pos, failed
vars == << c, l, word, pos, failed >>
Case == Cases[c]
Obs  == Case.obs.ev[l]
H    == Case.ops[l][1]
Op   == Case.ops[l][2]
Head1 == Case.heads[H]

Init == /\ c \in 1 .. Len(Cases) /\ l = 1
        /\ word = Top([ i \in 1 .. Len(Cases[c].levels) |-> Cases[c].levels[i].toks ], Cases[c].w)
        /\ pos = [ h \in 1 .. Len(Cases[c].heads) |-> 0 ]
        /\ failed = [ h \in 1 .. Len(Cases[c].heads) |-> FALSE ]

T == INSTANCE Tokenizer WITH toks <- Case.heads[H].toks, w <- word, pos <- pos[H], failed <- failed[H]

(* The answer that there should be, and the position after it *)
Answer == IF Head1.top = "plain"
          THEN IF Op = "all" THEN << SubSeq(word, pos[H] + 1, Len(word)), Len(word) >>
               ELSE IF pos[H] < Len(word) THEN << << word[pos[H] + 1] >>, pos[H] + 1 >> ELSE << <<>>, pos[H] >>
          ELSE IF Op = "skip" THEN << T!Skipped, pos[H] + Len(T!Skipped) >>
          ELSE LET t == IF Op = "it" THEN T!FirstToken(pos[H]) ELSE T!TokenAt(pos[H])
               IN  << IF Op = "sym" /\ t # <<>> THEN << t[3] >> ELSE t, IF t # <<>> THEN t[2] ELSE IF Op = "it" THEN Len(word) ELSE pos[H] >>

Finished == l > Len(Case.ops)
Step == LET a == Answer
        IN  /\ Obs.r = a[1]
            /\ pos' = [pos EXCEPT ![H] = a[2]]
            /\ failed' = [failed EXCEPT ![H] = @ \/ (a[1] = <<>> /\ a[2] = Len(word))]
            /\ (Head1.top = "plain" \/ (Obs.pos = a[2] /\ T!EndMayBe(Obs.end, a[2], failed'[H]))) = TRUE
            /\ l' = l + 1 /\ UNCHANGED << c, word >>
Next == IF Finished THEN UNCHANGED vars ELSE Step
Spec == Init /\ [][Next]_vars
=============================================================================
