---------------------------- MODULE Combinators ----------------------------
(***************************************************************************)
(* Programs of combinator calls and the pattern that each one is said to   *)
(* make: append is concatenation, or is union, repeat(m..n) is m to n-1    *)
(* copies, repeat_forever(n) is n or more.  The way an operand is passed   *)
(* (by value, reference, box, or as a string, slice or vector) makes no    *)
(* difference, so it is not part of the meaning.                           *)
(*                                                                         *)
(* Naive is that meaning.  Flat is how the implementation builds the       *)
(* pattern: it merges neighbouring literals and flattens sequences and     *)
(* alternatives.  MCCombinators checks that both have the same language.   *)
(***************************************************************************)
EXTENDS Pattern

RECURSIVE Naive(_)
Naive(q) ==
    CASE q.op = "eps"    -> [t |-> "eps"]
      [] q.op = "lit"    -> [t |-> "lit", s |-> q.s]
      [] q.op = "rng"    -> [t |-> "rng", a |-> q.a, b |-> q.b]
      [] q.op = "any"    -> [t |-> "any", ps |-> [i \in 1 .. Len(q.l) |-> Naive(q.l[i])]]
      [] q.op = "all"    -> [t |-> "all", ps |-> [i \in 1 .. Len(q.l) |-> Naive(q.l[i])]]
      [] q.op = "inf"    -> [t |-> "inf", n |-> q.n, p |-> Naive(q.l)]
      [] q.op = "rep"    -> [t |-> "rep", m |-> q.m, n |-> q.n, p |-> Naive(q.l)]
      [] q.op = "append" -> [t |-> "all", ps |-> << Naive(q.l), Naive(q.r) >>]
      [] q.op = "or"     -> [t |-> "any", ps |-> << Naive(q.l), Naive(q.r) >>]

AppendPattern(a, b) ==
    CASE a.t = "lit" /\ b.t = "lit" -> [t |-> "lit", s |-> a.s \o b.s]
      [] a.t = "all" /\ b.t = "all" -> [t |-> "all", ps |-> a.ps \o b.ps]
      [] a.t = "all" /\ b.t # "all" -> [t |-> "all", ps |-> Append(a.ps, b)]
      [] a.t # "all" /\ b.t = "all" -> [t |-> "all", ps |-> << a >> \o b.ps]
      [] OTHER                      -> [t |-> "all", ps |-> << a, b >>]

OrPattern(a, b) == IF a.t = "any" /\ b.t = "any" THEN [t |-> "any", ps |-> a.ps \o b.ps]
                   ELSE [t |-> "any", ps |-> << a, b >>]

RECURSIVE Flat(_)
Flat(q) ==
    CASE q.op = "any"    -> [t |-> "any", ps |-> [i \in 1 .. Len(q.l) |-> Flat(q.l[i])]]
      [] q.op = "all"    -> [t |-> "all", ps |-> [i \in 1 .. Len(q.l) |-> Flat(q.l[i])]]
      [] q.op = "inf"    -> [t |-> "inf", n |-> q.n, p |-> Flat(q.l)]
      [] q.op = "rep"    -> [t |-> "rep", m |-> q.m, n |-> q.n, p |-> Flat(q.l)]
      [] q.op = "append" -> AppendPattern(Flat(q.l), Flat(q.r))
      [] q.op = "or"     -> OrPattern(Flat(q.l), Flat(q.r))
      [] OTHER           -> Naive(q)
=============================================================================
