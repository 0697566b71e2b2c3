----------------------------- MODULE MCPattern -----------------------------
(* Every small pattern is run beside its denotation over every word up to  *)
(* MaxLen: the residual semantics accepts exactly the denoted words, and   *)
(* residuals are viable exactly when some continuation can be accepted.    *)
EXTENDS Pattern, TLC

CONSTANTS Level, MaxLen

Sym   == 0 .. 1
Atoms == { [t |-> "eps"], [t |-> "lit", s |-> <<>>], [t |-> "lit", s |-> <<0>>], [t |-> "lit", s |-> <<1>>],
           [t |-> "lit", s |-> <<0, 1>>], [t |-> "rng", a |-> 0, b |-> 1], [t |-> "any", ps |-> <<>>],
           [t |-> "all", ps |-> <<>>] }
Grow1(S) == { [t |-> "inf", n |-> n, p |-> p] : n \in 0 .. 2, p \in S }
            \cup { [t |-> "rep", m |-> m, n |-> n, p |-> p] : m \in 0 .. 2, n \in 0 .. 3, p \in S }
Grow2(S, T) == { [t |-> "all", ps |-> <<p, q>>] : p \in S, q \in T }
               \cup { [t |-> "any", ps |-> <<p, q>>] : p \in S, q \in T }
L1 == Atoms \cup Grow1(Atoms) \cup Grow2(Atoms, Atoms)
L2 == Grow1(L1) \cup Grow2(L1, Atoms) \cup Grow2(Atoms, L1)
Patterns == IF Level = 1 THEN L1 ELSE L1 \cup L2

VARIABLES p, w, R
vars == << p, w, R >>

Init == p \in Patterns /\ w = <<>> /\ R = { <<0, <<p>> >> }
Next == /\ Len(w) < MaxLen
        /\ \E x \in Sym : w' = Append(w, x) /\ R' = After(R, x) /\ UNCHANGED p
Spec == Init /\ [][Next]_vars

ResidualsAgree == (Output(R) = 0) <=> InLanguage(p, w)
(* the longest match computed by stepping is the longest denoted prefix *)
LongestAgrees  == Match(<< [p |-> p, o |-> 0] >>, w, 0).len = LongestPrefix(p, w)
(* a residual that cannot accept is dead for ever, one that is viable can be completed *)
RECURSIVE CanFinish(_, _)
CanFinish(S, n) == Output(S) # -1 \/ (n > 0 /\ \E x \in Sym : CanFinish(After(S, x), n - 1))
DeadStaysDead   == [][~Viable(R) => ~Viable(R') /\ Output(R') = -1]_vars
ViableFinishes  == (Viable(R) /\ Len(w) <= 1) => CanFinish(R, 9)
=============================================================================
