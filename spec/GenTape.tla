------------------------------ MODULE GenTape ------------------------------
(* Behaviours that take the ring buffer through every transition of its    *)
(* graph (every shape of the buffer with every operation), printed as they *)
(* are found, to be replayed on the real tape.                             *)
EXTENDS TapeRing, TLC, Json, FiniteSets

CONSTANTS MaxN, MaxCap

VARIABLE hist

(* Each behaviour ends by going back to the cut and reading everything again, so that what the last step left behind is seen *)
Emit(op) == /\ hist' = Append(hist, op)
            /\ PrintT("@@" \o ToJson([n |-> n, ops |-> hist' \o << << "r", RingBefore' >>, << "n", MaxN + 2 >> >>]))

GenInit == \E len \in {0, 1, 4, MaxN} : RingInit(len) /\ hist = <<>>
GenNext == \/ RingRead /\ Emit(<< "n", 1 >>)
           \/ \E k \in {0, 1, RingBefore - 1, RingBefore, RingBefore + 1, RingBefore + 2} : k >= 0 /\ RingRewind(k) /\ Emit(<< "r", k >>)
           \/ RingCut /\ Emit(<< "c", 0 >>)
           \/ (2 * Len(buf) <= MaxCap /\ RingResize /\ Emit(<< "z", 0 >>))
View == << n, Len(buf), ri, fi, li, eor, taken = n >>
=============================================================================
