---------------------------- MODULE TraceRunner ----------------------------
(***************************************************************************)
(* Validates what happens when a real automaton, built from blocks b, is   *)
(* run.  Operations: << "b" >> starts a run (runs are numbered from 1),    *)
(* << "s", r, x >> steps run r, << "f", r >> finishes it, << "c", r >>     *)
(* copies it to a new run, << "p", r, w >> lets the matching function run  *)
(* it over w.  What is answered is [a |-> action, n |-> length, o |->      *)
(* output, yes |-> is_accepted of the output, no |-> of another one]; runs *)
(* that have ended are not used again ("gone").                            *)
(*                                                                         *)
(* obs.dfa is what the automaton reports of itself.                        *)
(***************************************************************************)
EXTENDS Runner, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES c, l, runs
vars == << c, l, runs >>
Gone == [d |-> -1, n |-> 0, len |-> -1, o |-> -1]

B   == Cases[c].b
Op  == Cases[c].ops[l]
Obs == Cases[c].obs.ev[l]

Init == c \in 1 .. Len(Cases) /\ l = 1 /\ runs = <<>>

(* An answer that may be given when r is where the run has come to.  The answer "more" is only right for more. *)
Ended(r) == /\ Obs.a = Over(r)
            /\ r.len # -1 => Obs.n = r.len /\ Obs.o = r.o
            /\ Obs.yes = (r.len # -1) /\ Obs.no = FALSE
Answer(h, r, mayMore, mayEnd) ==
    IF Obs.a = "more" THEN mayMore /\ Obs.yes = FALSE /\ Obs.no = FALSE /\ runs' = [runs EXCEPT ![h] = r]
    ELSE mayEnd /\ Ended(r) /\ runs' = [runs EXCEPT ![h] = Gone]

Step ==
    IF Op[1] = "b" THEN
        LET r == StartRun(B) IN
        IF Obs.a = "more" THEN Obs.yes = FALSE /\ Obs.no = FALSE /\ runs' = Append(runs, r)
        ELSE MayEnd(B, r) /\ Ended(r) /\ runs' = Append(runs, Gone)
    ELSE IF runs[Op[2]].d = -1 THEN
        Obs.a = "gone" /\ runs' = IF Op[1] = "c" THEN Append(runs, Gone) ELSE runs
    ELSE LET r == runs[Op[2]] IN
         CASE Op[1] = "s" -> (IF Moves(B, r, Op[3]) THEN LET q == StepRun(B, r, Op[3]) IN Answer(Op[2], q, TRUE, MayEnd(B, q))
                              ELSE Answer(Op[2], r, FALSE, TRUE))
           [] Op[1] = "f" -> Answer(Op[2], r, FALSE, TRUE)
           [] Op[1] = "p" -> Answer(Op[2], Through(B, r, Op[3], 0, 8).r, FALSE, TRUE)
           [] Op[1] = "c" -> Obs.a = "copied" /\ runs' = Append(runs, r)

Finished == l > Len(Cases[c].ops)
Next == IF Finished THEN UNCHANGED vars ELSE Step /\ l' = l + 1 /\ UNCHANGED c
Spec == Init /\ [][Next]_vars

Reported == l = 1 => LET D == Cases[c].obs.dfa
                     IN  /\ Cases[c].obs.count = Len(B) /\ Len(D) = Len(B) /\ WellFormed(D)
                         /\ \A i \in 1 .. Len(B) : /\ D[i].out = B[i].out
                                                   /\ \A x \in 0 .. Cases[c].k - 1 : Goes(D, i - 1, x) = Goes(B, i - 1, x)
=============================================================================
