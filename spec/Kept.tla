-------------------------------- MODULE Kept --------------------------------
(***************************************************************************)
(* How much of its source is kept while it is tokenized: no more than the  *)
(* longest stretch that a match has to look at; and of a tape no more than *)
(* was ever read beyond its cut.  How it is kept is free: within a         *)
(* constant factor, and a few symbols.                                     *)
(***************************************************************************)
EXTENDS Lazy

Slack(n) == 4 * n + 500

(* The longest look at any position of w, where w comes again and again; Endless if some look is as long as that *)
Endless == -1
Stretch(toks, w) ==
    LET ts  == Widened(toks)
        www == w \o w \o w
    IN  FoldLeft(LAMBDA a, i : IF a = Endless THEN a
                               ELSE LET n == Look(ts, www, i)
                                    IN  IF i + n >= Len(www) THEN Endless ELSE Most(a, n + 1),
                 0, [ i \in 1 .. Len(w) |-> i - 1 ])

(* A tape: << "n", how many >> reads, << "b", how many >> goes back, << "c" >> cuts *)
Fresh == [pos |-> 0, lo |-> 0, hi |-> 0, most |-> 0]
Move(t, op) ==
    LET n == CASE op[1] = "n" -> [t EXCEPT !.pos = @ + op[2], !.hi = Most(@, t.pos + op[2])]
               [] op[1] = "b" -> [t EXCEPT !.pos = @ - op[2]]
               [] op[1] = "c" -> [t EXCEPT !.lo = t.pos]
    IN  [n EXCEPT !.most = Most(@, n.hi - n.lo)]
Furthest(ops) == FoldLeft(Move, Fresh, ops).most
=============================================================================
