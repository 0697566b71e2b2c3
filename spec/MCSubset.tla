------------------------------ MODULE MCSubset ------------------------------
(***************************************************************************)
(* The compiler on every machine with up to MaxTrans transitions (and one  *)
(* join) between states 0 .. MaxState: it always ends, and what it builds  *)
(* is then run beside the machine, over every word.                        *)
(***************************************************************************)
EXTENDS Subset, TLC
D == INSTANCE Dfa
CONSTANTS MaxState, MaxTrans, K

VARIABLES d, S     \* while running: state of the automaton, states of the machine
vars == << compiler, d, S >>

Some  == 0 .. MaxState
(* The symbols stand for ranges that do not overlap *)
Trans == { << s, x, x, t >> : s \in Some, x \in 0 .. K, t \in Some }
RECURSIVE UpTo(_, _)
UpTo(T, n) == IF n = 0 THEN {{}} ELSE LET U == UpTo(T, n - 1) IN U \cup { u \cup {t} : u \in U, t \in T }
Outs  == { { << s, f[s] >> : s \in { s \in Some : f[s] # -1 } } : f \in [Some -> {-1, 0, 1}] }

Init == /\ \E ts \in UpTo(Trans, MaxTrans), os \in Outs, js \in UpTo(Some \X Some, 1) :
              m = [highest |-> MaxState, trans |-> ts, joins |-> js, outs |-> os]
        /\ CompileInit /\ d = -1 /\ S = {}
Begin == todo = <<>> /\ d = -1 /\ d' = 0 /\ S' = {0} /\ UNCHANGED compiler
Run   == \E x \in 0 .. K : /\ d # -1 /\ D!Goes(Built, d, x) # -1
                           /\ d' = D!Goes(Built, d, x) /\ S' = Step(m, S, x) /\ UNCHANGED compiler
Compiling == Process /\ UNCHANGED << d, S >>
Next == Compiling \/ Begin \/ Run
Spec == Init /\ [][Next]_vars /\ WF_vars(Compiling)

Ends == <>(todo = <<>>)
(* More blocks than there are sets only because a set was on the list when it was met again *)
Enough == Len(todo) + Len(blocks) <= 1 + (K + 1) * Cardinality(SUBSET Some)
Protocol == todo = <<>> => D!WellFormed(Built)
Simulates == d # -1 => Built[d + 1].out = OutOf(S) /\ \A x \in 0 .. K : D!Goes(Built, d, x) = -1 <=> Step(m, S, x) = {}
=============================================================================
