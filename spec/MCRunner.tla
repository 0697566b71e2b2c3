------------------------------ MODULE MCRunner ------------------------------
(* Runs of every small automaton over every word, and what they should find *)
EXTENDS Runner, TLC
CONSTANTS MaxState, K, MaxLen

VARIABLES b, w, r, ended
vars == << b, w, r, ended >>

RECURSIVE TrOf(_, _)
(* The transitions of a state as a sequence, from its targets *)
TrOf(f, x) == IF x > K THEN <<>> ELSE (IF f[x] = -1 THEN <<>> ELSE << << x, x, f[x] >> >>) \o TrOf(f, x + 1)
Block == [o : {-1, 0, 1}, f : [0 .. K -> -1 .. MaxState]]
Automata == { [ i \in 1 .. MaxState + 1 |-> [out |-> g[i].o, tr |-> TrOf(g[i].f, 0)] ] : g \in [1 .. MaxState + 1 -> Block] }

RECURSIVE StateAfter(_, _)
StateAfter(d, v) == IF d = -1 \/ v = <<>> THEN d ELSE StateAfter(Goes(b, d, v[1]), Tail(v))
OutAfter(v) == LET d == StateAfter(0, v) IN IF d = -1 THEN -1 ELSE b[d + 1].out
Accepted(v) == { i \in 0 .. Len(v) : OutAfter(SubSeq(v, 1, i)) # -1 }

Init == b \in Automata /\ w = <<>> /\ r = StartRun(b) /\ ended = FALSE
Next == /\ ~ended /\ Len(w) < MaxLen
        /\ \E x \in 0 .. K : /\ w' = Append(w, x)
                             /\ IF Moves(b, r, x) THEN r' = StepRun(b, r, x) /\ ended' = FALSE
                                ELSE r' = r /\ ended' = TRUE
        /\ UNCHANGED b
Spec == Init /\ [][Next]_vars

FindsLongest == LET A == Accepted(w)
                IN  IF A = {} THEN r.len = -1
                    ELSE /\ r.len = CHOOSE n \in A : \A i \in A : i <= n
                         /\ r.o = OutAfter(SubSeq(w, 1, r.len))
(* It ends only when it is decided: no continuation of any length (bounded by the number of states) is accepted *)
Words(n) == UNION { [1 .. i -> 0 .. K] : i \in 0 .. n }
Decided == ended => \A v \in Words(MaxState + 1) : OutAfter(w \o v) = -1
(* Hope is exact *)
HopeExact == ended \/ (Hope(b, r.d) <=> \E v \in Words(MaxState + 1) : v # <<>> /\ OutAfter(w \o v) # -1)
=============================================================================
