----------------------------- MODULE TraceTape -----------------------------
(***************************************************************************)
(* Validates traces of the real tape.  A record is [n |-> symbols in the   *)
(* source, ops |-> operations, obs |-> one observation per operation]:     *)
(* << "n", count >> reads count times, << "r", k >> rewinds by k, << "c" >>*)
(* cuts, << "z" >> resizes.  After each the harness notes the result (runs *)
(* of ascending symbols, or whether the rewind was accepted), the position,*)
(* the buffer size, whether the tape is at the end of its reader, and how  *)
(* often the source was asked for a symbol.                                *)
(*                                                                         *)
(* C06 judges what is read, the position and the buffer size.  C07 judges  *)
(* rewinds, requests to the source and the end.                            *)
(***************************************************************************)
EXTENDS Tape, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)
Judge == IOEnv.PROP

VARIABLES c, l

Op  == Cases[c].ops[l]
Obs == Cases[c].obs.ev[l]

Init == /\ c \in 1 .. Len(Cases) /\ l = 1
        /\ TapeInit(Cases[c].n)

Act == CASE Op[1] = "n" -> Read(Op[2])
         [] Op[1] = "r" -> Rewind(Op[2])
         [] Op[1] = "c" -> Cut
         [] Op[1] = "z" -> Resize

Expected == CASE Op[1] = "n" -> Runs(pos, Op[2], N)
              [] Op[1] = "r" -> IF CanRewind(Op[2]) THEN << << 1, 1 >> >> ELSE << << 0, 1 >> >>
              [] OTHER -> <<>>

(* C06 says nothing once a rewind was wrongly accepted or refused *)
Astray == Judge = "C06" /\ Op[1] = "r" /\ Obs.res # Expected

Agrees == IF Judge = "C06" THEN /\ Op[1] = "n" => Obs.res = Expected
                                /\ Obs.pos = pos'
                                /\ Obs.buf = BufferSize'
          ELSE /\ Op[1] = "r" => Obs.res = Expected
               \* a refused rewind changes nothing that can be seen
               /\ (Op[1] = "r" /\ ~CanRewind(Op[2])) => Obs.same
               /\ Obs.end = AtEnd'
               /\ Obs.pulls = Pulls'

Step == /\ Act
        /\ Agrees = TRUE
        /\ l' = l + 1 /\ UNCHANGED c

Finished == l > Len(Cases[c].ops)
Next == IF Finished THEN UNCHANGED << tape, c, l >>
        ELSE IF Astray THEN l' = Len(Cases[c].ops) + 1 /\ UNCHANGED << tape, c >>
        ELSE Step
Spec == Init /\ [][Next]_<< tape, c, l >>

(* Invariants of the specification, which hold in the real code as long as its trace is accepted *)
Ok == TapeOk
=============================================================================
