---------------------------- MODULE TraceDomain ----------------------------
(***************************************************************************)
(* Validates the neighbours of symbols that the real types report, for a   *)
(* window of a type: symbols numbered 0 to n from where it begins.  It is  *)
(* at the lowest symbol, at the highest, both, neither, or it is all of    *)
(* char.  The harness reports the steps from each symbol that has a next   *)
(* to that, as runs << from, to, step >> of symbols with the same step,    *)
(* and so the steps from the previous.                                     *)
(***************************************************************************)
EXTENDS Domain, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, l
Case == Cases[c]
First == Case.at \in { "min", "all", "char" }
Last  == Case.at \in { "max", "all", "char" }
(* There is at least one more beyond an end of the window that isn't an end of the type *)
D == IF Case.at = "char" THEN Char ELSE << << IF First THEN 0 ELSE -1, IF Last THEN Case.n ELSE Case.n + 1 >> >>

(* Runs are gone through in order, those of next and then those of prev *)
Up   == Case.obs.up
Down == Case.obs.down
Runs == Up \o Down
Init == c \in 1 .. Len(Cases) /\ l = 0
Next == l < Len(Runs) /\ l' = l + 1 /\ UNCHANGED c

(* Where the runs start and end *)
FirstUp   == 0
LastUp    == IF Last THEN PrevOf(D, Case.n) ELSE Case.n
FirstDown == IF First THEN NextOf(D, 0) ELSE 0
LastDown  == Case.n
Start == IF l = 1 THEN FirstUp ELSE IF l = Len(Up) + 1 THEN FirstDown ELSE NextOf(D, Runs[l - 1][2])
Within(r) == \E b \in 1 .. Len(D) : D[b][1] <= r[1] /\ r[1] <= r[2] /\ r[2] <= D[b][2]
Neighbours == l > 0 => /\ Runs[l][1] = Start
                       /\ Within(Runs[l])
                       /\ IF l <= Len(Up) THEN StepsUp(D, Runs[l][1], Runs[l][2], Runs[l][3])
                          ELSE StepsDown(D, Runs[l][1], Runs[l][2], Runs[l][3])
Whole == /\ Up # <<>> /\ Up[Len(Up)][2] = LastUp
         /\ Down # <<>> /\ Down[Len(Down)][2] = LastDown
=============================================================================
