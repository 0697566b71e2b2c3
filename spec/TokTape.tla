------------------------------ MODULE TokTape ------------------------------
(***************************************************************************)
(* How the implementation tokenizes: it reads a tape until the match is    *)
(* decided, or the tape ends, rewinds to the end of the token (or to where *)
(* it began) and, if there was a token, cuts the tape there.  As an        *)
(* iterator it skips a symbol where there is no token, until the tape is   *)
(* at the end of its reader. What was skipped is cut off, too.             *)
(***************************************************************************)
EXTENDS Tape, Pattern

VARIABLES toks, w,
          pc,       \* "idle", "match", "after" (a match was decided)
          call,     \* what is being done: "token", "skip", "item"
          from,     \* where the tape was when it began
          R,        \* state of the matcher
          best,     \* the longest match so far
          begin,    \* where this match began
          res       \* result of the last call
toktape == << tape, toks, w, pc, call, from, R, best, begin, res >>

TTInit(ts, word) == /\ toks = ts /\ w = word /\ TapeInit(Len(word))
                    /\ pc = "idle" /\ call = "none" /\ from = 0 /\ R = {} /\ best = << -1, -1 >> /\ begin = 0 /\ res = <<>>

Note(S, n, b) == IF Output(S) # -1 THEN << n, Output(S) >> ELSE b
StartMatch(at) == /\ pc' = "match" /\ begin' = at /\ R' = Start(toks) /\ best' = Note(Start(toks), 0, << -1, -1 >>)

CallToken == pc = "idle" /\ call' = "token" /\ from' = pos /\ StartMatch(pos) /\ UNCHANGED << tape, toks, w, res >>
CallItem  == pc = "idle" /\ call' = "item"  /\ from' = pos /\ StartMatch(pos) /\ UNCHANGED << tape, toks, w, res >>
CallSkip  == /\ pc = "idle" /\ call' = "skip" /\ from' = pos
             /\ res' = (IF pos < N THEN << w[pos + 1] >> ELSE <<>>)
             /\ pos' = Smaller(pos + 1, N) /\ lo' = Smaller(pos + 1, N) /\ hi' = Larger(hi, Smaller(pos + 1, N)) /\ ended' = (ended \/ pos = N)
             /\ UNCHANGED << N, toks, w, pc, R, best, begin >>

(* One symbol of a match. The match is decided by a symbol with which nothing can be matched, or by the end. *)
Match1 == /\ pc = "match"
          /\ Read(1)
          /\ IF pos < N THEN LET S == After(R, w[pos + 1])
                             IN  /\ R' = S
                                 /\ best' = Note(S, pos + 1 - begin, best)
                                 /\ pc' = (IF Viable(S) THEN "match" ELSE "after")
             ELSE R' = {} /\ best' = best /\ pc' = "after"
          /\ UNCHANGED << toks, w, call, from, begin, res >>

(* There is a token: back to its end, and cut *)
Found  == /\ pc = "after" /\ best[1] > 0
          /\ pos' = begin + best[1] /\ lo' = begin + best[1]
          /\ UNCHANGED << N, hi, ended >>
          /\ res' = << begin, begin + best[1], best[2] >>
          /\ pc' = "idle"
          /\ UNCHANGED << toks, w, call, from, R, best, begin >>
(* There is none: back to the beginning *)
Nothing == /\ pc = "after" /\ best[1] <= 0
           /\ IF call = "token" \/ (ended /\ begin = hi)
              THEN /\ pos' = begin /\ UNCHANGED << N, lo, hi, ended >>
                   /\ res' = <<>> /\ pc' = "idle"
                   /\ UNCHANGED << R, best, begin >>
              \* next(): skip a symbol and try again
              ELSE /\ pos' = Smaller(begin + 1, N) /\ hi' = Larger(hi, Smaller(begin + 1, N)) /\ ended' = (ended \/ begin = N)
                   /\ lo' = Smaller(begin + 1, N)
                   /\ UNCHANGED << N, res >>
                   /\ StartMatch(Smaller(begin + 1, N))
           /\ UNCHANGED << toks, w, call, from >>
Work == Match1 \/ Found \/ Nothing
=============================================================================
