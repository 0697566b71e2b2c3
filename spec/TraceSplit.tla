----------------------------- MODULE TraceSplit -----------------------------
(***************************************************************************)
(* Validates traces of real split readers.  Operations: << "r", reader,    *)
(* count >> reads, << "s", reader >> splits it, << "d", reader >> drops it.*)
(* After each the harness notes what was read (as runs), how often the     *)
(* source was asked, and how many symbols are alive inside the readers.    *)
(*                                                                         *)
(* C08 judges what the halves read.  C09 judges requests to the source,    *)
(* the symbols kept, and where a reader carries on after it was split.     *)
(* What is read past the end of a source is only judged if the source      *)
(* keeps answering that it has ended (rec.fused).                          *)
(***************************************************************************)
EXTENDS Split, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)
Judge == IOEnv.PROP

VARIABLES c, l

Op  == Cases[c].ops[l]
Obs == Cases[c].obs.ev[l]

Init == /\ c \in 1 .. Len(Cases) /\ l = 1
        /\ SplitInit(Cases[c].n)

Act == CASE Op[1] = "r" -> Read(Op[2], Op[3])
         [] Op[1] = "s" -> Split(Op[2])
         [] Op[1] = "d" -> Drop(Op[2])

PastEnd   == \E r \in Readers : pos'[r] > N + 1
Judgeable == Cases[c].fused \/ ~PastEnd
ReadRight == (Op[1] = "r" /\ Judgeable) => Obs.res = Answers(pos[Op[2]], Op[3])

Agrees == IF Judge = "C08" THEN ReadRight
          ELSE /\ (Op[1] = "r" /\ Halves(Op[2]) # {}) => ReadRight
               /\ ~PastEnd => Obs.pulls = Pulls'
               /\ Obs.held <= MostKept'

Step == /\ Act
        /\ Agrees = TRUE
        /\ l' = l + 1 /\ UNCHANGED c
Next == IF l > Len(Cases[c].ops) THEN UNCHANGED << split, c, l >> ELSE Step
Spec == Init /\ [][Next]_<< split, c, l >>
Ok   == SplitOk
=============================================================================
