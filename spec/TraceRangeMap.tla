--------------------------- MODULE TraceRangeMap ---------------------------
(***************************************************************************)
(* Validates histories of maps of ranges of the implementation.  A record  *)
(* is [ops, obs], where ops are what was done in order: << "a", m, ranges  *)
(* >> adds ranges to map m, << "f", m, range >> looks one up in it and     *)
(* << "d", m >> divides it, making another map (the first is new and       *)
(* empty).  obs[i] is what the i'th returned: what a lookup found, or all  *)
(* of the ranges of the map that dividing made.                            *)
(*                                                                         *)
(* C12 judges the divided maps, C13 the lookups.                           *)
(***************************************************************************)
EXTENDS RangeMap, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)
Judge == IOEnv.PROP

VARIABLES c, l, maps
Ops == Cases[c].ops
Obs == Cases[c].obs
Op  == Ops[l]

Init == c \in 1 .. Len(Cases) /\ l = 1 /\ maps = << {} >>
Next == /\ l <= Len(Ops)
        /\ maps' = IF Op[1] = "a" THEN [maps EXCEPT ![Op[2]] = @ \cup Elems(Op[3])]
                   \* whether or not that is right
                   ELSE IF Op[1] = "d" THEN Append(maps, Elems(Obs[l]))
                   ELSE maps
        /\ l' = l + 1 /\ UNCHANGED c
Spec == Init /\ [][Next]_<< c, l, maps >>

NonOverlapping == (Judge = "C12" /\ l <= Len(Ops)) => (Op[1] = "d" => Elems(Obs[l]) = Partition(maps[Op[2]]))
Lookups        == (Judge = "C13" /\ l <= Len(Ops)) => (Op[1] = "f" => IsLookup(Obs[l], maps[Op[2]], Op[3]))
=============================================================================
