------------------------------ MODULE RangeMap ------------------------------
(***************************************************************************)
(* Maps of ranges of symbols.  A range is << lowest, highest >>, both      *)
(* inclusive; a map is a set of ranges.                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Overlap(r, q)  == r[1] <= q[2] /\ q[1] <= r[2]
Before(r, q)   == r[1] < q[1] \/ (r[1] = q[1] /\ r[2] < q[2])
Symbols(r)     == r[1] .. r[2]
Covered(Rs)    == UNION { Symbols(r) : r \in Rs }
Ascending(s)   == \A i \in 1 .. Len(s) - 1 : Before(s[i], s[i + 1])
Elems(s)       == { s[i] : i \in 1 .. Len(s) }

(* P divides the symbols of Rs into disjoint ranges, such that each of Rs is a union of some of them *)
Divides(P, Rs) == /\ Covered(P) = Covered(Rs)
                  /\ \A p, q \in P : p = q \/ ~Overlap(p, q)
                  /\ \A r \in Rs, p \in P : Overlap(r, p) => Symbols(p) \subseteq Symbols(r)
(* No two of them could have been one *)
Coarsest(P, Rs) == \A p, q \in P : p[2] + 1 = q[1] => \E r \in Rs : Overlap(r, p) # Overlap(r, q)

(* The coarsest division: it changes where one of the ranges begins or has just ended *)
Edges(Rs)      == { r[1] : r \in Rs } \cup { r[2] + 1 : r \in Rs }
Lowest(S)      == CHOOSE x \in S : \A y \in S : x <= y
Partition(Rs)  == LET E == Edges(Rs)
                      Part(e) == << e, Lowest({ f \in E : f > e }) - 1 >>
                  IN  { Part(e) : e \in { f \in E : \E r \in Rs : f \in Symbols(r) } }

(* What a lookup returns: the ranges that overlap the query, once each, in ascending order *)
IsLookup(s, Rs, q) == /\ Ascending(s)
                      /\ Elems(s) = { r \in Rs : Overlap(r, q) }
=============================================================================
