------------------------------ MODULE Thompson ------------------------------
(***************************************************************************)
(* How the implementation compiles a pattern onto a machine, and what      *)
(* compiling one must do.                                                  *)
(***************************************************************************)
EXTENDS Machine
P == INSTANCE Pattern

(* A compilation in progress: the machine, and the state reached *)
At(mm, s) == [m |-> mm, s |-> s]

RECURSIVE Compile(_, _), CompileLit(_, _, _), CompileTimes(_, _, _, _, _, _, _), CompileSeq(_, _, _), CompileAny(_, _, _, _, _)

Compile(k, p) ==
    LET target == Count(k.m)
        room   == At(Create(k.m, target), k.s)
    IN  CASE p.t = "eps" -> k
          [] p.t = "lit" -> CompileLit(k, p.s, 1)
          [] p.t = "rng" -> At(Add(k.m, k.s, p.a, p.b, target), target)
          [] p.t = "inf" -> CompileTimes(room, p.p, target, 0, p.n, p.n + 2, TRUE)
          [] p.t = "rep" -> CompileTimes(room, p.p, target, 0, p.m, p.n, FALSE)
          [] p.t = "all" -> CompileSeq(k, p.ps, 1)
          [] p.t = "any" -> CompileAny(room, p.ps, 1, k.s, target)

CompileLit(k, s, i) == IF i > Len(s) THEN k
                       ELSE LET n == Count(k.m) IN CompileLit(At(Add(k.m, k.s, s[i], s[i], n), n), s, i + 1)
CompileTimes(k, p, target, i, least, most, loop) ==
    IF i >= most THEN At(k.m, target)
    ELSE LET joined == IF i >= least THEN At(Join(k.m, k.s, target), k.s) ELSE k
             once   == Compile(joined, p)
             closed == IF loop /\ i = most - 1 THEN At(Join(once.m, once.s, k.s), once.s) ELSE once
         IN  CompileTimes(closed, p, target, i + 1, least, most, loop)
CompileSeq(k, ps, i) == IF i > Len(ps) THEN k ELSE CompileSeq(Compile(k, ps[i]), ps, i + 1)
CompileAny(k, ps, i, start, target) ==
    IF i > Len(ps) THEN At(k.m, target)
    ELSE LET one == Compile(At(k.m, start), ps[i])
         IN  CompileAny(At(Join(one.m, one.s, target), one.s), ps, i + 1, start, target)

----------------------------------------------------------------------------
(* The states that a word leads to from some states, counting those that   *)
(* are joined to them                                                      *)

Closed(m, S)   == Reach(S, m.joins)
Follow(m, S, x) == Closed(m, { t[4] : t \in { u \in m.trans : u[1] \in S /\ u[2] <= x /\ x <= u[3] } })

(***************************************************************************)
(* Running the machine before (So) and after (Sn) side by side from any    *)
(* state, with what is left of the pattern (G) wherever the old machine    *)
(* can be in the start state.  States that were given out before are       *)
(* states too.                                                             *)
(***************************************************************************)
Begin(old, start, p, So) == IF start \in So THEN { << p >> } ELSE {}
Later(G, x)     == { g \in UNION { P!PDSeq(r, x) : r \in G } : P!ViableSeq(g) }
SameBefore(old, given, So, Sn) == Sn \cap (States(old) \cup given) = So
LeadsThere(So, Sn, G, to) == to \in Sn <=> (to \in So \/ \E g \in G : P!NullableSeq(g))
(* Whether or not a state is reported to exist, everything in the machine is still there *)
Keeps(old, new) == /\ old.trans \subseteq new.trans /\ old.joins \subseteq new.joins
                   /\ { q \in new.outs : q[1] <= old.highest } = old.outs
                   /\ Count(new) >= Count(old)
=============================================================================
