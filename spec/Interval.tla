------------------------------ MODULE Interval ------------------------------
(***************************************************************************)
(* Ranges of ordered symbols: << lowest, highest >>, standing for the set  *)
(* of symbols between, inclusive.  Over symbols 0 .. n.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Symbols(r)     == r[1] .. r[2]
Ranges(n)      == { r \in (0 .. n) \X (0 .. n) : r[1] <= r[2] }
Includes(r, x) == x \in Symbols(r)
Overlaps(r, q) == Symbols(r) \cap Symbols(q) # {}
Covers(j, r, q) == Symbols(r) \cup Symbols(q) \subseteq Symbols(j)
(* The smallest that covers both *)
IsJoin(j, r, q, n) == Covers(j, r, q) /\ \A i \in Ranges(n) : Covers(i, r, q) => Symbols(j) \subseteq Symbols(i)
(* -1, 0 or 1 *)
Order(x, y)    == IF x < y THEN -1 ELSE IF x = y THEN 0 ELSE 1
Compare(r, q)  == IF r[1] = q[1] THEN Order(r[2], q[2]) ELSE Order(r[1], q[1])
=============================================================================
