---------------------------- MODULE TraceCompile ----------------------------
(***************************************************************************)
(* Validates what the implementation's compiler gives to a builder, and    *)
(* what the library's builder makes of it.                                 *)
(*                                                                         *)
(* A record is [k |-> number of symbols, ops |-> calls that make the       *)
(* machine, obs |-> [pre, blocks, builds, dfa]]: pre has the calls made on *)
(* a recording builder before the first start_state, blocks the calls      *)
(* after each, << "t", lowest, highest, target >> or << "a", output >>,    *)
(* builds how often it was asked to build, and dfa what the automaton that *)
(* the library's builder made reports, or <<>> if that can't be used.      *)
(*                                                                         *)
(* Every automaton is run beside the machine over every word.              *)
(***************************************************************************)
EXTENDS Machine, TLC, Json, IOUtils
D == INSTANCE Dfa

Cases    == ndJsonDeserialize(IOEnv.TRACE)
N        == Len(Cases)
(* Tables, worked out once: TLC only does so where no bound name is also that of a variable *)
Machines == [n \in 1 .. N |-> ApplyAll(Empty, Cases[n].ops)]
Rep      == [n \in 1 .. N |-> [s \in States(Machines[n]) |-> Reported(Machines[n], s)]]
Can      == [n \in 1 .. N |-> [s \in States(Machines[n]) |-> CanOutput(Machines[n], s)]]

Calls(b, w) == SelectSeq(b, LAMBDA e : e[1] = w)
Given(b)    == [ i \in 1 .. Len(b) |->
                   [out |-> LET u == Calls(b[i], "a") IN IF u = <<>> THEN -1 ELSE u[1][2],
                    tr  |-> LET t == Calls(b[i], "t") IN [ j \in 1 .. Len(t) |-> << t[j][2], t[j][3], t[j][4] >> ] ] ]
Autos    == [n \in 1 .. N |-> << Given(Cases[n].obs.blocks), Cases[n].obs.dfa >>]

VARIABLES c, a, d, S
vars == << c, a, d, S >>

Symbols == 0 .. Cases[c].k - 1
Moves(T, x) == { t[3] : t \in { u \in UNION { Rep[c][s] : s \in T } : u[1] <= x /\ x <= u[2] } }
OutOf(T)    == LET O == UNION { Can[c][s] : s \in T } IN IF O = {} THEN -1 ELSE Least(O)

(* Where the machine can't be accepted any more it does not matter whether the automaton still moves *)
RECURSIVE Alive(_, _)
Alive(T, seen) == OutOf(T) # -1 \/ LET n == { t[3] : t \in UNION { Rep[c][s] : s \in T } } \ seen
                                   IN  n # {} /\ Alive(n, seen \cup n)

Init == /\ c \in 1 .. N
        /\ a \in { i \in 1 .. 2 : i = 1 \/ Autos[c][i] # <<>> }
        /\ d = 0 /\ S = {0}
Next == \E x \in Symbols : LET e == D!Goes(Autos[c][a], d, x)
                           IN  e # -1 /\ d' = e /\ S' = Moves(S, x) /\ UNCHANGED << c, a >>
Spec == Init /\ [][Next]_vars

Protocol == d = 0 => /\ Cases[c].obs.pre = <<>> /\ Cases[c].obs.builds = 1
                     /\ \A i \in 1 .. Len(Cases[c].obs.blocks) : Len(Calls(Cases[c].obs.blocks[i], "a")) <= 1
                     /\ D!WellFormed(Autos[c][a])
Agrees   == Autos[c][a][d + 1].out = OutOf(S)
StopsOnlyWhenDone == \A x \in Symbols : D!Goes(Autos[c][a], d, x) # -1 \/ LET T == Moves(S, x) IN T = {} \/ ~Alive(T, T)
=============================================================================
