----------------------------- MODULE TraceNdfa -----------------------------
(***************************************************************************)
(* Validates traces of the implementation's Ndfa.  Operations are          *)
(* << "t", s, a, b, t >>, << "c", s >>, << "j", s, t >>, << "o", s, o >>,  *)
(* << "x" >> (remove overlaps), << "q" >> (report everything) and          *)
(* << "qs", states >> (report of some of the states of a large machine).   *)
(*                                                                         *)
(* A report is [count, tr, out], with the transitions of state s as        *)
(* << lowest, highest, to >> in tr[s + 1] and its output in out[s + 1].    *)
(* When overlaps are removed from a machine, the harness keeps a twin of   *)
(* it which is built in the same way without that: the reports of "q" are  *)
(* then [f |-> of the machine, t |-> of its twin].                         *)
(*                                                                         *)
(* C10 judges what a machine reports against what was done to it.  C11     *)
(* judges machine against twin: whatever an Ndfa is, removing overlaps     *)
(* must relate them.                                                       *)
(***************************************************************************)
EXTENDS Ndfa, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)
Judge == IOEnv.PROP

VARIABLES c, l,
          clean,    \* no range has been added since overlaps were last removed
          last      \* what was reported since then, if anything
vars == << ndfa, c, l, clean, last >>

Op  == Cases[c].ops[l]
Obs == Cases[c].obs.ev[l]

Elems(s) == { s[i] : i \in 1 .. Len(s) }
Sets(r)  == [ i \in 1 .. Len(r.tr) |-> Elems(r.tr[i]) ]

Init == /\ c \in 1 .. Len(Cases) /\ l = 1
        /\ NdfaInit /\ clean = FALSE /\ last = <<>>

(* C10 *)
ReportRight(r) == /\ r.count = Count(m)
                  /\ \A s \in States(m) : /\ Elems(r.tr[s + 1]) = Reported(m, s)
                                             /\ IF CanOutput(m, s) = {} THEN r.out[s + 1] = -1 ELSE r.out[s + 1] \in CanOutput(m, s)
(* C11: `last' is shorter than the report when giving a state an output    *)
(* created states in between.                                              *)
FixRight(f, t) == /\ f.count = t.count
                  /\ SameMoves(Sets(f), Sets(t))
                  /\ \A s \in 0 .. t.count - 1 :
                        IF t.out[s + 1] = -1 THEN f.out[s + 1] = -1
                        ELSE f.out[s + 1] = t.out[s + 1] \/ f.out[s + 1] \in CanOutput(m, s)
                  /\ clean => NoOverlaps(Sets(f))
                  /\ \A i \in 1 .. Len(last) : Sets(f)[i] = last[i]

(* The same of some states, the s-th of which is reported at s *)
SomeRight(r) == /\ r.count = Count(m)
                /\ \A i \in 1 .. Len(Op[2]) :
                      LET s == Op[2][i]
                          can == CanOutput(m, s)
                      IN  /\ Elems(r.tr[i]) = Reported(m, s)
                          /\ IF can = {} THEN r.out[i] = -1 ELSE r.out[i] \in can
SomeFixed(f, t) == /\ f.count = t.count
                   /\ SameMoves(Sets(f), Sets(t))
                   /\ \A i \in 1 .. Len(Op[2]) : f.out[i] = t.out[i] \/ (f.out[i] # -1 /\ t.out[i] # -1)
                   /\ clean => NoOverlaps(Sets(f))

QuerySome == /\ (IF Judge = "C10" THEN SomeRight(Obs.f) ELSE SomeFixed(Obs.f, Obs.t)) = TRUE
             /\ UNCHANGED << ndfa, clean, last >>
Query == /\ (IF Judge = "C10" THEN ReportRight(Obs.f) ELSE FixRight(Obs.f, Obs.t)) = TRUE
         /\ last' = (IF clean THEN Sets(Obs.f) ELSE <<>>)
         /\ UNCHANGED << ndfa, clean >>
Move == /\ CASE Op[1] = "t" -> AddTransition(Op[2], Op[3], Op[4], Op[5]) /\ clean' = FALSE /\ last' = <<>>
             [] Op[1] = "c" -> CreateState(Op[2])        /\ last' = <<>> /\ UNCHANGED clean
             [] Op[1] = "j" -> JoinStates(Op[2], Op[3])  /\ last' = <<>> /\ UNCHANGED clean
             [] Op[1] = "o" -> SetOutput(Op[2], Op[3])   /\ UNCHANGED << clean, last >>
             \* removing them again changes nothing
             [] Op[1] = "x" -> clean' = TRUE /\ UNCHANGED << ndfa, last >>
             [] Op[1] = "q"  -> Query
             [] Op[1] = "qs" -> QuerySome
        /\ l' = l + 1 /\ UNCHANGED c
Finished == l > Len(Cases[c].ops)
Next == IF Finished THEN UNCHANGED vars ELSE Move
Spec == Init /\ [][Next]_vars
Ok == \A p \in m.trans : p[1] <= m.highest
=============================================================================
