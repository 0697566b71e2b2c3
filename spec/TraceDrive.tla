----------------------------- MODULE TraceDrive -----------------------------
(***************************************************************************)
(* Validates how the implementation drives matchers that are not its own.  *)
(* A record is [m |-> a matcher (tables as in Drive), runs |-> << << word, *)
(* reader >> .. >>, obs |-> for each of them [ev, ret, left, is]]: ev is   *)
(* everything that happened, in order: << "read", x >> (or -1), << "next", *)
(* s, x >>, << "fin", s >>; ret is the answer, left what the source was    *)
(* still to read, and is[o + 1] whether the answer said it had accepted    *)
(* as o.  "quiet" readers don't note their reads.                          *)
(***************************************************************************)
EXTENDS Drive, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES c, r, l, at, pos
vars == << c, r, l, at, pos >>

M     == Cases[c].m
Word  == Cases[c].runs[r][1]
Quiet == Cases[c].runs[r][2] = "quiet"
Obs   == Cases[c].obs[r]
Ev    == Obs.ev[l]
Rest  == SubSeq(Word, at + 1, Len(Word))

Init == c \in 1 .. Len(Cases) /\ r = 1 /\ l = 1 /\ at = 0 /\ pos = Begin(M)

(* What the source answers when it is asked *)
Answered == IF at < Len(Word) THEN Word[at + 1] ELSE NoSymbol
Reads    == /\ MustRead(pos)
            /\ IF Quiet THEN UNCHANGED l ELSE (l <= Len(Obs.ev)) = TRUE /\ (Ev = << "read", Answered >>) = TRUE /\ l' = l + 1
            /\ pos' = AfterRead(pos, Answered)
            /\ at' = IF Answered = NoSymbol THEN at ELSE at + 1
            /\ UNCHANGED << c, r >>
Happens(ev, after) == (l <= Len(Obs.ev)) = TRUE /\ (Ev = ev) = TRUE /\ l' = l + 1 /\ pos' = after /\ UNCHANGED << c, r, at >>
Returns  == /\ MustReturn(pos)
            /\ (l = Len(Obs.ev) + 1) = TRUE
            /\ (Obs.ret = pos[2]) = TRUE
            /\ (Obs.left = Rest) = TRUE
            /\ (\A o \in 1 .. Len(Obs.is) : Obs.is[o] = (pos[2][1] = "a" /\ pos[2][3] = o - 1)) = TRUE
            /\ pos' = AfterReturn(pos) /\ UNCHANGED << c, r, l, at >>
Another  == pos[1] = "done" /\ r < Len(Cases[c].runs) /\ r' = r + 1 /\ l' = 1 /\ at' = 0 /\ pos' = Begin(M) /\ UNCHANGED c
Finished == pos[1] = "done" /\ r = Len(Cases[c].runs) /\ UNCHANGED vars
Next == \/ Reads
        \/ MustNext(pos) /\ Happens(<< "next", pos[2], pos[3] >>, AfterNext(M, pos))
        \/ MustFinish(pos) /\ Happens(<< "fin", pos[2] >>, AfterFinish(M, pos))
        \/ Returns
        \/ Another
        \/ Finished
Spec == Init /\ [][Next]_vars
=============================================================================
