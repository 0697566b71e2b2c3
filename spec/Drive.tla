------------------------------- MODULE Drive -------------------------------
(***************************************************************************)
(* How a pattern matcher is driven over a source of symbols, whichever     *)
(* matcher it is.  A matcher answers with an action: << "m", s >> (more:   *)
(* it is in state s), << "a", n, o >> (accepted n symbols, as o) or        *)
(* << "r" >> (rejected).  A matcher here is [start, nx, fin]: its first    *)
(* action, nx[s][x] the answer of state s to symbol x and fin[s] its       *)
(* answer to the end of the source (which is not to ask for more).         *)
(*                                                                         *)
(* The protocol is a state machine over what happens between driver,       *)
(* matcher and source; pos is where it has come to:                        *)
(*   << "have", a >>   action a was the last answer                        *)
(*   << "got", s, x >> symbol x was read for state s                       *)
(*   << "end", s >>    the source has ended, in state s                    *)
(*   << "done", a >>   the driver has returned a                           *)
(***************************************************************************)
EXTENDS Integers, Sequences

NoSymbol == -1
More(a)  == a[1] = "m"

Begin(m) == << "have", m.start >>

(* What has to happen next, other than what the source answers *)
MustRead(pos)   == pos[1] = "have" /\ More(pos[2])
MustNext(pos)   == pos[1] = "got"
MustFinish(pos) == pos[1] = "end"
MustReturn(pos) == pos[1] = "have" /\ ~More(pos[2])

AfterRead(pos, x)   == IF x = NoSymbol THEN << "end", pos[2][2] >> ELSE << "got", pos[2][2], x >>
AfterNext(m, pos)   == << "have", m.nx[pos[2] + 1][pos[3] + 1] >>
AfterFinish(m, pos) == << "have", m.fin[pos[2] + 1] >>
AfterReturn(pos)    == << "done", pos[2] >>

(* What it comes to: the answer of the matcher, and how many symbols were taken to get to it *)
RECURSIVE Answer(_, _, _, _)
Answer(m, a, w, i) == IF ~More(a) THEN [a |-> a, taken |-> i]
                      ELSE IF i = Len(w) THEN [a |-> m.fin[a[2] + 1], taken |-> i]
                      ELSE Answer(m, m.nx[a[2] + 1][w[i + 1] + 1], w, i + 1)
Outcome(m, w) == Answer(m, m.start, w, 0)
=============================================================================
