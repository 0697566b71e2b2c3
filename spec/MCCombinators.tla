--------------------------- MODULE MCCombinators ---------------------------
(* Every small program: the pattern that the implementation's rules build  *)
(* is run beside the naive meaning, over every word (words of any length:  *)
(* the state is the pair of residual sets).                                *)
EXTENDS Combinators, TLC, Json, IOUtils, SequencesExt

CONSTANTS Level

Sym  == 0 .. 1
Base == { [op |-> "eps"], [op |-> "lit", s |-> <<>>], [op |-> "lit", s |-> <<0>>], [op |-> "lit", s |-> <<1, 0>>],
          [op |-> "rng", a |-> 0, b |-> 1] }
Un(S)     == { [op |-> "inf", n |-> n, l |-> q] : n \in 0 .. 2, q \in S }
             \cup { [op |-> "rep", m |-> m, n |-> n, l |-> q] : m \in 0 .. 2, n \in 1 .. 3, q \in S }
Bin(S, T) == { [op |-> o, l |-> q, r |-> u] : o \in {"append", "or"}, q \in S, u \in T }
Lists(S)  == { [op |-> o, l |-> l] : o \in {"any", "all"}, l \in {<<>>} \cup { <<q>> : q \in S } \cup { <<q, u>> : q \in S, u \in S } }
Q1 == Base \cup Un(Base) \cup Bin(Base, Base) \cup Lists(Base)
Q2 == Un(Bin(Base, Base)) \cup Bin(Q1, Base) \cup Bin(Base, Q1)
Q3 == Bin(Bin(Base, Base), Bin(Base, Base)) \cup Bin(Lists(Base), Lists(Base))
Programs == CASE Level = 1 -> Q1 [] Level = 2 -> Q1 \cup Q2 [] OTHER -> Q1 \cup Q2 \cup Q3

VARIABLES q, R, F
vars == << q, R, F >>
Init == q \in Programs /\ R = Start(<< [p |-> Naive(q), o |-> 0] >>) /\ F = Start(<< [p |-> Flat(q), o |-> 0] >>)
Next == \E x \in Sym : R' = After(R, x) /\ F' = After(F, x) /\ UNCHANGED q
Spec == Init /\ [][Next]_vars

SameLanguage == Output(R) = Output(F)
SameDeath    == Viable(R) <=> Viable(F)

=============================================================================
