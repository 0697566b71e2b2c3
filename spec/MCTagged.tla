------------------------------ MODULE MCTagged ------------------------------
(***************************************************************************)
(* Every way of tagging a stream of N symbols with up to MaxOps calls.     *)
(* Any list of tags can be applied in one go, or one at a time from the    *)
(* last to the first (which leaves the positions of the others alone).     *)
(***************************************************************************)
EXTENDS Tagged, FiniteSets, TLC
CONSTANTS N, MaxOps, MaxTags

VARIABLES s, before, ts, ops
vars == << s, before, ts, ops >>
Base == Plain([ i \in 1 .. N |-> i ])
Lists == UNION { [1 .. n -> (0 .. N) \X (0 .. N) \X {7}] : n \in 0 .. MaxTags }

Init == s = Base /\ before = Base /\ ts = <<>> /\ ops = 0
Next == /\ ops < MaxOps /\ ops' = ops + 1
        /\ \E t \in Lists : /\ Allowed(s, t)
                            /\ ts' = t /\ before' = s /\ s' = TagAll(s, t)
Spec == Init /\ [][Next]_vars

Kept == Leaves(s) = [ i \in 1 .. N |-> i ]
OneByOne == s = FoldRight(LAMBDA t, x : TagOne(x, t[1], t[2], t[3]), ts, before)
Sum(q) == FoldLeft(LAMBDA a, t : a + t[2] - t[1], 0, q)
Length == Len(s) = Len(before) - Sum(ts) + Len(ts)
=============================================================================
