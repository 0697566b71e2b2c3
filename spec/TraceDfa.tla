------------------------------ MODULE TraceDfa ------------------------------
(***************************************************************************)
(* Validates automata extracted from the implementation's prepared         *)
(* matchers.  Every automaton is explored in product with the residuals of *)
(* the patterns it was made from, from the start state over every symbol:  *)
(* as both are deterministic and finite this covers words of every length. *)
(*                                                                         *)
(* A record is [k |-> number of symbols, toks |-> tokens or prog |->       *)
(* combinator program, obs |-> [n, out, tr]]: out[d + 1] is the rank of    *)
(* state d's output (-1: none) and tr[d + 1][x + 1] the state it moves to  *)
(* on x (-1: none).                                                        *)
(***************************************************************************)
EXTENDS Combinators, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)
Toks  == [n \in 1 .. Len(Cases) |->
            IF Cases[n].how = "prog" THEN << [p |-> Naive(Cases[n].prog), o |-> 0] >> ELSE Cases[n].toks]

VARIABLES c,   \* the case
          d,   \* state of the implementation's automaton
          R    \* what the specification still has to match

(* Residuals that can't be completed can be forgotten *)
Trim(S) == { r \in S : ViableSeq(r[2]) }

Obs     == Cases[c].obs
Sym     == 0 .. (Cases[c].k - 1)

Init == /\ c \in 1 .. Len(Cases)
        /\ d = 0
        /\ R = Trim(Start(Toks[c]))
Next == \E x \in Sym :
           /\ Obs.tr[d + 1][x + 1] # -1
           /\ d' = Obs.tr[d + 1][x + 1]
           /\ R' = Trim(After(R, x))
           /\ UNCHANGED c
Spec == Init /\ [][Next]_<< c, d, R >>

(* The automaton accepts here, with this output, exactly when the specification does *)
OutputAgrees  == Obs.out[d + 1] = Output(R)
(* Where it can't move, no longer word is in the language *)
StopsOnlyWhenDone == \A x \in Sym : Obs.tr[d + 1][x + 1] = -1 => Trim(After(R, x)) = {}
TargetsExist  == \A x \in Sym : Obs.tr[d + 1][x + 1] < Obs.n
=============================================================================
