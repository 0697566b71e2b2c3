------------------------------- MODULE MCTape -------------------------------
(* The ring buffer implements the tape, for sources of up to MaxN symbols, *)
(* any rewinds (also ones that must be refused), cuts and resizes while    *)
(* the capacity is at most MaxCap.                                         *)
EXTENDS TapeRing, TLC

CONSTANTS MaxN, MaxCap

Init == \E len \in 0 .. MaxN : RingInit(len)
Next == \/ RingRead
        \/ \E k \in 0 .. MaxN + 1 : RingRewind(k)
        \/ RingCut
        \/ (2 * Len(buf) <= MaxCap /\ RingResize)
Spec == Init /\ [][Next]_ring

(* Each step of the ring is the same step of the tape *)
AbsInit == Init => \E len \in 0 .. MaxN : Abstract!TapeInit(len)
Refines == [][ \/ Abstract!Read(1)
               \/ \E k \in 0 .. MaxN + 1 : Abstract!Rewind(k)
               \/ Abstract!Cut
               \/ Abstract!Resize ]_ring
Holds   == RingHolds /\ Abstract!TapeOk
SizeOk  == Size = Abstract!BufferSize
=============================================================================
