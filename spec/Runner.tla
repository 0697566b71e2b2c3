------------------------------- MODULE Runner -------------------------------
(***************************************************************************)
(* Running an automaton over a word.  A run is [d |-> state, n |-> number  *)
(* of symbols so far, len, o |-> the longest prefix that was accepted and  *)
(* its output, or -1].  Every step gives an action: "more" with the run    *)
(* that carries on, "accept" or "reject".                                  *)
(***************************************************************************)
EXTENDS Dfa, SequencesExt

Longest(b, r) == IF b[r.d + 1].out # -1 THEN [r EXCEPT !.len = r.n, !.o = b[r.d + 1].out] ELSE r
StartRun(b)   == Longest(b, [d |-> 0, n |-> 0, len |-> -1, o |-> -1])
StepRun(b, r, x) == Longest(b, [r EXCEPT !.d = Goes(b, r.d, x), !.n = r.n + 1])
Moves(b, r, x)   == Goes(b, r.d, x) # -1

(* Running over w from position i, as far as it goes: a stretch at a time, each twice as long as the last *)
Pass(b, a, x) == IF a.moving /\ Moves(b, a.r, x) THEN [a EXCEPT !.r = StepRun(b, a.r, x)] ELSE [a EXCEPT !.moving = FALSE]
RECURSIVE ThroughFrom(_, _, _, _, _)
ThroughFrom(b, a, w, i, stretch) ==
    IF i >= Len(w) \/ ~a.moving THEN a
    ELSE LET j == IF i + stretch < Len(w) THEN i + stretch ELSE Len(w)
         IN  ThroughFrom(b, FoldLeft(LAMBDA q, x : Pass(b, q, x), a, SubSeq(w, i + 1, j)), w, j, 2 * stretch)
Through(b, r, w, i, stretch) == ThroughFrom(b, [r |-> r, moving |-> TRUE], w, i, stretch)

(* A longer prefix could still be accepted *)
Hope(b, d) == \E e \in Leads(b, Next1(b, d)) : b[e + 1].out # -1
Over(r)    == IF r.len = -1 THEN "reject" ELSE "accept"

(* What may be answered: once nothing longer can be accepted, a run may say so rather than ask for more *)
MayEnd(b, r)    == ~Hope(b, r.d)
=============================================================================
