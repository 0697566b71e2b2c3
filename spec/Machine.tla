------------------------------ MODULE Machine ------------------------------
(***************************************************************************)
(* What a non-deterministic machine is, as a value, and what each call     *)
(* that builds it does.  State 0 always exists.                            *)
(* Transitions are << from, lowest, highest, to >>; a join << s, t >> says *)
(* that s also has everything that t has, whenever it was added, and so on *)
(* through the joins of t; outputs are << state, output >>.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Empty == [highest |-> 0, trans |-> {}, joins |-> {}, outs |-> {}]

Largest(S) == CHOOSE m \in S : \A s \in S : s <= m
Least(S)   == CHOOSE m \in S : \A s \in S : m <= s
Mention(m, S) == [m EXCEPT !.highest = Largest(S \cup {@})]

Add(m, s, a, b, t)  == Mention([m EXCEPT !.trans = @ \cup { << s, a, b, t >> }], {s, t})
Create(m, s)        == Mention(m, {s})
Join(m, s, t)       == Mention([m EXCEPT !.joins = @ \cup { << s, t >> }], {s, t})
Set(m, s, o)        == Mention([m EXCEPT !.outs = { p \in @ : p[1] # s } \cup { << s, o >> }], {s})
(* Only machines of other kinds than Ndfa can have a state with several outputs of its own *)
Also(m, s, o)       == Mention([m EXCEPT !.outs = @ \cup { << s, o >> }], {s})

Apply(m, op) ==
    CASE op[1] = "t" -> Add(m, op[2], op[3], op[4], op[5])
      [] op[1] = "c" -> Create(m, op[2])
      [] op[1] = "j" -> Join(m, op[2], op[3])
      [] op[1] = "o" -> Set(m, op[2], op[3])
      [] op[1] = "p" -> Also(m, op[2], op[3])
ApplyAll(m, calls) == FoldLeft(Apply, m, calls)

(* What can be reached from some states by joins: at most as many steps as there are joins *)
Further(S, js) == S \cup { j[2] : j \in { k \in js : k[1] \in S } }
Reach(S, js) == IF js = {} THEN S ELSE
                FoldLeft(LAMBDA a, i : IF a.done THEN a ELSE LET T == Further(a.s, js) IN [s |-> T, done |-> T = a.s],
                         [s |-> S, done |-> FALSE], [ i \in 1 .. Cardinality(js) |-> i ]).s

States(m)      == 0 .. m.highest
Count(m)       == m.highest + 1
(* What is reported of a state *)
Reported(m, s)  == LET C == Reach({s}, m.joins) IN { << t[2], t[3], t[4] >> : t \in { u \in m.trans : u[1] \in C } }
CanOutput(m, s) == LET C == Reach({s}, m.joins) IN { p[2] : p \in { q \in m.outs : q[1] \in C } }

(* Where a symbol leads from some states *)
Step(m, S, x) == { t[3] : t \in { u \in UNION { Reported(m, s) : s \in S } : u[1] <= x /\ x <= u[2] } }
=============================================================================
