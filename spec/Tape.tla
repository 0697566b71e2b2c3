-------------------------------- MODULE Tape --------------------------------
(***************************************************************************)
(* A tape: a reader of a source that can be moved back over what it has    *)
(* read.  The source is a sequence of symbols followed by its end (what it *)
(* would answer if it was asked again after its end is of no interest, as  *)
(* the tape never does).  The symbol at position k of the source is simply *)
(* the number k, so that a symbol out of place can be seen.                *)
(*                                                                         *)
(*      0 ......... lo ......... pos ......... hi ......... N              *)
(*      forgotten   the cut      the head      furthest     end            *)
(***************************************************************************)
EXTENDS Integers, Sequences

VARIABLES N,      \* how many symbols the source has
          pos,    \* the read head
          lo,     \* the last cut
          hi,     \* the furthest that was ever read
          ended   \* the source has said that it ended
tape == << N, pos, lo, hi, ended >>

End == -1
Smaller(a, b) == IF a < b THEN a ELSE b
Larger(a, b)  == IF a > b THEN a ELSE b

TapeInit(n) == N = n /\ pos = 0 /\ lo = 0 /\ hi = 0 /\ ended = FALSE

(* What the next count reads return: runs of ascending symbols <<first, how many>>, an end is a run of End *)
Runs(from, count, n) == LET m == Smaller(count, n - from)
                        IN  (IF m > 0 THEN << << from, m >> >> ELSE <<>>)
                            \o (IF count > m THEN << << End, count - m >> >> ELSE <<>>)

(* count reads *)
Read(count) == LET m == Smaller(count, N - pos)
               IN  /\ pos'   = pos + m
                   /\ hi'    = Larger(hi, pos + m)
                   /\ ended' = (ended \/ count > m)
                   /\ UNCHANGED << N, lo >>

CanRewind(n) == n <= pos - lo
Rewind(n) == /\ pos' = IF CanRewind(n) THEN pos - n ELSE pos      \* a refused rewind changes nothing
             /\ UNCHANGED << N, lo, hi, ended >>
Cut       == lo' = pos /\ UNCHANGED << N, pos, hi, ended >>
Resize    == UNCHANGED tape

(* What can be seen of a tape *)
BufferSize == hi - lo
AtEnd      == ended /\ pos = hi
Pulls      == hi + (IF ended THEN 1 ELSE 0)      \* times that the source was asked for a symbol

TapeOk == /\ 0 <= lo /\ lo <= pos /\ pos <= hi /\ hi <= N
          /\ ended => hi = N
          /\ AtEnd => pos = N
=============================================================================
