-------------------------------- MODULE Lazy --------------------------------
(***************************************************************************)
(* How much of its input a match or a tokenizer may read: no further than  *)
(* the first symbol with which nothing can be matched any more.            *)
(***************************************************************************)
EXTENDS Pattern

(* No part is impossible to match: to read on is then always for a reason *)
RECURSIVE Possible(_)
Possible(p) ==
    CASE p.t \in {"eps", "lit", "rng"} -> TRUE
      [] p.t = "inf" -> Possible(p.p)
      [] p.t = "rep" -> p.m < p.n /\ Possible(p.p)
      [] p.t = "all" -> \A k \in 1 .. Len(p.ps) : Possible(p.ps[k])
      [] p.t = "any" -> p.ps # <<>> /\ \A k \in 1 .. Len(p.ps) : Possible(p.ps[k])

(* A bounded repetition may look for one copy more than it allows *)
RECURSIVE Wider(_)
Wider(p) ==
    CASE p.t \in {"eps", "lit", "rng"} -> p
      [] p.t = "inf" -> [p EXCEPT !.p = Wider(@)]
      [] p.t = "rep" -> [p EXCEPT !.n = @ + 1, !.p = Wider(@)]
      [] p.t \in {"all", "any"} -> [p EXCEPT !.ps = [ k \in 1 .. Len(@) |-> Wider(@[k]) ]]
Widened(toks) == [ k \in 1 .. Len(toks) |-> [toks[k] EXCEPT !.p = Wider(@)] ]

(* From position i of w, how many symbols begin some word of the language: *)
(* a.n of them so far                                                      *)
LookStep(a, x) == IF a.done THEN a
                  ELSE LET S == After(a.R, x) IN IF Viable(S) THEN [a EXCEPT !.R = S, !.n = @ + 1] ELSE [a EXCEPT !.done = TRUE]
RECURSIVE LookFrom(_, _, _, _)
LookFrom(a, w, i, stretch) ==
    IF i >= Len(w) \/ a.done THEN a
    ELSE LET j == IF i + stretch < Len(w) THEN i + stretch ELSE Len(w)
         IN  LookFrom(FoldLeft(LookStep, a, SubSeq(w, i + 1, j)), w, j, 2 * stretch)
Look(toks, w, i) == LookFrom([R |-> Start(toks), n |-> 0, done |-> FALSE], w, i, 8).n

Least(a, b) == IF a < b THEN a ELSE b
Most(a, b)  == IF a > b THEN a ELSE b

(* A match that begins at i may read up to here *)
Need(toks, w, i) == Least(i + Look(Widened(toks), w, i) + 1, Len(w))
(* And no more than this is needed *)
NeedStrictly(toks, w, i) == Least(i + Look(toks, w, i) + 1, Len(w))
(* And matches that begin at i to j *)
NeedFrom(toks, w, i, j) == FoldLeft(LAMBDA a, x : Most(a, Need(toks, w, x)), 0, [ x \in 1 .. j - i + 1 |-> i + x - 1 ])
=============================================================================
