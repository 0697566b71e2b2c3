------------------------------ MODULE Pattern ------------------------------
(***************************************************************************)
(* Patterns in a regular language and what they mean.                      *)
(*                                                                         *)
(* A pattern is a record whose field t names the constructor:              *)
(*   [t |-> "eps"]                        the empty word                   *)
(*   [t |-> "lit", s |-> <<..>>]          a literal phrase                 *)
(*   [t |-> "rng", a |-> lo, b |-> hi]    one symbol in lo..hi, inclusive  *)
(*   [t |-> "inf", n |-> n, p |-> p]      n or more copies of p            *)
(*   [t |-> "rep", m |-> m, n |-> n, p |-> p]  m to n-1 copies of p        *)
(*   [t |-> "all", ps |-> <<..>>]         all of ps in sequence            *)
(*   [t |-> "any", ps |-> <<..>>]         any one of ps                    *)
(*                                                                         *)
(* Symbols are integers: only their order matters.                         *)
(*                                                                         *)
(* Two independent definitions of the language are given: the denotation   *)
(* (Ends: where can a match end), which is the specification of what a     *)
(* pattern means, and the residuals (PD: what remains to be matched after  *)
(* a symbol), which make the pattern a transition system that can be run   *)
(* beside an automaton.  MCPattern checks that they agree.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

----------------------------------------------------------------------------
(* Denotation: the positions where a match of p in word w can end, given   *)
(* the set I of positions where it may start (0 = before the first symbol) *)

RECURSIVE Ends(_, _, _), EndsSeq(_, _, _, _), EndsTimes(_, _, _, _), EndsStar(_, _, _)

LitAt(s, w, i) == /\ i + Len(s) <= Len(w)
                  /\ \A k \in 1 .. Len(s) : w[i + k] = s[k]

Ends(p, w, I) ==
    CASE p.t = "eps" -> I
      [] p.t = "lit" -> { i + Len(p.s) : i \in { j \in I : LitAt(p.s, w, j) } }
      [] p.t = "rng" -> { i + 1 : i \in { j \in I : j < Len(w) /\ p.a <= w[j + 1] /\ w[j + 1] <= p.b } }
      [] p.t = "inf" -> EndsStar(p.p, w, EndsTimes(p.p, w, I, p.n))
      [] p.t = "rep" -> UNION { EndsTimes(p.p, w, I, k) : k \in p.m .. (p.n - 1) }
      [] p.t = "all" -> EndsSeq(p.ps, 1, w, I)
      [] p.t = "any" -> UNION { Ends(p.ps[k], w, I) : k \in 1 .. Len(p.ps) }

EndsSeq(ps, k, w, I)   == IF k > Len(ps) THEN I ELSE EndsSeq(ps, k + 1, w, Ends(ps[k], w, I))
EndsTimes(p, w, I, n)  == IF n = 0 THEN I ELSE EndsTimes(p, w, Ends(p, w, I), n - 1)
EndsStar(p, w, I)      == LET J == I \cup Ends(p, w, I)
                          IN  IF J = I THEN I ELSE EndsStar(p, w, J)

InLanguage(p, w) == Len(w) \in Ends(p, w, {0})

(* Length of the longest prefix of w in the language of p, or -1 *)
LongestPrefix(p, w) == LET E == Ends(p, w, {0})
                       IN  IF E = {} THEN -1 ELSE CHOOSE e \in E : \A f \in E : f <= e

----------------------------------------------------------------------------
(* Structure *)

RECURSIVE Nullable(_), NonEmpty(_)

(* The empty word is in the language *)
Nullable(p) ==
    CASE p.t = "eps" -> TRUE
      [] p.t = "lit" -> p.s = <<>>
      [] p.t = "rng" -> FALSE
      [] p.t = "inf" -> p.n = 0 \/ Nullable(p.p)
      [] p.t = "rep" -> p.m < p.n /\ (p.m = 0 \/ Nullable(p.p))
      [] p.t = "all" -> \A k \in 1 .. Len(p.ps) : Nullable(p.ps[k])
      [] p.t = "any" -> \E k \in 1 .. Len(p.ps) : Nullable(p.ps[k])

(* Some word is in the language *)
NonEmpty(p) ==
    CASE p.t \in {"eps", "lit", "rng"} -> TRUE
      [] p.t = "inf" -> p.n = 0 \/ NonEmpty(p.p)
      [] p.t = "rep" -> p.m < p.n /\ (p.m = 0 \/ NonEmpty(p.p))
      [] p.t = "all" -> \A k \in 1 .. Len(p.ps) : NonEmpty(p.ps[k])
      [] p.t = "any" -> \E k \in 1 .. Len(p.ps) : NonEmpty(p.ps[k])

----------------------------------------------------------------------------
(* Residuals: a residual is a sequence of patterns still to be matched.    *)
(* PD(p, x) is the set of residuals of p after the symbol x.               *)

RECURSIVE PD(_, _), PDSeq(_, _)

Less1(n) == IF n = 0 THEN 0 ELSE n - 1

PD(p, x) ==
    CASE p.t = "eps" -> {}
      [] p.t = "lit" -> IF p.s # <<>> /\ p.s[1] = x
                        THEN { IF Len(p.s) = 1 THEN <<>> ELSE << [t |-> "lit", s |-> Tail(p.s)] >> }
                        ELSE {}
      [] p.t = "rng" -> IF p.a <= x /\ x <= p.b THEN { <<>> } ELSE {}
      [] p.t = "inf" -> LET again == [t |-> "inf", n |-> Less1(p.n), p |-> p.p]
                        IN  { r \o << again >> : r \in PD(p.p, x) }
      [] p.t = "rep" -> IF p.m >= p.n \/ p.n = 1 THEN {}
                        ELSE LET again == [t |-> "rep", m |-> Less1(p.m), n |-> p.n - 1, p |-> p.p]
                             IN  { r \o << again >> : r \in PD(p.p, x) }
      [] p.t = "all" -> PDSeq(p.ps, x)
      [] p.t = "any" -> UNION { PD(p.ps[k], x) : k \in 1 .. Len(p.ps) }

PDSeq(ps, x) ==
    IF ps = <<>> THEN {}
    ELSE { r \o Tail(ps) : r \in PD(Head(ps), x) }
         \cup (IF Nullable(Head(ps)) THEN PDSeq(Tail(ps), x) ELSE {})

NullableSeq(c) == \A k \in 1 .. Len(c) : Nullable(c[k])
ViableSeq(c)   == \A k \in 1 .. Len(c) : NonEmpty(c[k])

----------------------------------------------------------------------------
(* Sets of tokens: a token set is a sequence of records [p |-> pattern,    *)
(* o |-> rank of the output symbol].  The state of matching is a set of    *)
(* pairs <<rank, residual>>.                                               *)

Start(toks)   == { << toks[k].o, << toks[k].p >> >> : k \in 1 .. Len(toks) }
After(R, x)   == UNION { { << r[1], c >> : c \in PDSeq(r[2], x) } : r \in R }
Outputs(R)    == { r[1] : r \in { q \in R : NullableSeq(q[2]) } }
Viable(R)     == \E r \in R : ViableSeq(r[2])
Lowest(S)     == CHOOSE m \in S : \A n \in S : m <= n

(* The output of a state: the lowest ranked, or -1 if it does not accept *)
Output(R)     == LET O == Outputs(R) IN IF O = {} THEN -1 ELSE Lowest(O)

(* The longest match of w from position i (0-based): len is the number of  *)
(* symbols matched, or -1, and o the output.  Reads a stretch at a time,   *)
(* each twice as long as the last.                                         *)
MatchStep(a, x) ==
    LET S   == After(a.R, x)
        out == Output(S)
    IN  IF out = -1 THEN [a EXCEPT !.R = S, !.n = @ + 1] ELSE [R |-> S, n |-> a.n + 1, len |-> a.n + 1, o |-> out]

RECURSIVE MatchFrom(_, _, _, _)
MatchFrom(a, w, i, stretch) ==
    IF i >= Len(w) \/ ~Viable(a.R) THEN a
    ELSE LET j == IF i + stretch < Len(w) THEN i + stretch ELSE Len(w)
         IN  MatchFrom(FoldLeft(MatchStep, a, SubSeq(w, i + 1, j)), w, j, 2 * stretch)

Match(toks, w, i) == LET S == Start(toks) IN
    MatchFrom([R |-> S, n |-> 0, len |-> IF Output(S) = -1 THEN -1 ELSE 0, o |-> Output(S)], w, i, 8)
=============================================================================
