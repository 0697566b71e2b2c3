---------------------------- MODULE TraceReaders ----------------------------
(***************************************************************************)
(* Validates what real pipelines of readers answered.  A case has          *)
(*   script   what the source answers to requests: symbols, or -1 for an   *)
(*            end, or an error of a byte stream; -2 is an interrupted read *)
(*   layers   as in Readers; << "pass", name, n >> in a case.  A reader    *)
(*            that was split has n symbols read by its other half first    *)
(*   ops      "n": a request, "v": to_vec                                  *)
(* and the harness notes each answer and how many symbols the source has   *)
(* given by then (-1 if that can't be seen), before the first in given0.   *)
(***************************************************************************)
EXTENDS Readers, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES c, l, possible, segs
vars == << c, l, possible, segs >>
Case   == Cases[c]
Obs    == Case.obs.ev[l]
Script(cs) == SelectSeq(cs.script, LAMBDA x : x # -2)

Larger(a, b) == IF a > b THEN a ELSE b
(* The symbols that the other halves of readers that were split have had from the source *)
Ahead(cs) == LET of(i) == LET s == Delivers(Script(cs), SubSeq(cs.layers, 1, i - 1), cs.k)[1]
                          IN  IF cs.layers[i][3] <= Len(s) THEN s[cs.layers[i][3]][2] ELSE Sum(Segments(Script(cs)), 1)
             IN  FoldLeft(LAMBDA a, i : Larger(a, of(i)), 0, SelectSeq([ i \in 1 .. Len(cs.layers) |-> i ], LAMBDA i : cs.layers[i][1] = "pass" /\ Len(cs.layers[i]) = 3 /\ cs.layers[i][3] > 0))
GivenOk(given, at) == given = -1 \/ IsEager(Case.layers) \/ (LET t == Taken(Script(Case), segs, at) IN given = t \/ (given > t /\ given <= Ahead(Case)))

Init == /\ c \in 1 .. Len(Cases) /\ l = 1
        /\ segs = Delivers(Script(Cases[c]), Cases[c].layers, Cases[c].k)
        /\ possible = { Begin }

Step == possible' = { at \in (IF Case.ops[l] = "n" THEN UNION { After(segs, at) : at \in { at \in possible : Answer(segs, at) = Obs.r } }
                              ELSE UNION { AfterRest(segs, at) : at \in { at \in possible : Rest(segs, at) = Obs.r } }) : GivenOk(Obs.given, at) }
Finished == l > Len(Case.ops)
Next == IF Finished THEN UNCHANGED vars
        ELSE Step /\ l' = l + 1 /\ UNCHANGED << c, segs >>
Spec == Init /\ [][Next]_vars
Allowed == possible # {}
(* Nothing is read before it is asked for *)
Patient == l = 1 => GivenOk(Case.obs.given0, Begin)
=============================================================================
