----------------------------- MODULE MCRangeMap -----------------------------
(***************************************************************************)
(* The implementation's way of dividing ranges: a stack of the ranges      *)
(* (lowest on top), the top two of which are compared until it is empty.   *)
(* For every set of ranges over 0 .. K it ends, with the coarsest division *)
(* in ascending order.  Also: its lookup (all of the ranges before the     *)
(* query that reach it, then those from there on while they start within)  *)
(* finds what overlaps.                                                    *)
(***************************************************************************)
EXTENDS RangeMap, TLC, SequencesExt

CONSTANTS K, MaxRanges

VARIABLES rs, stack, result
vars == << rs, stack, result >>

AllRanges == { r \in (0 .. K) \X (0 .. K) : r[1] <= r[2] }
Sorted(S) == SetToSortSeq(S, Before)

Init == /\ rs \in { S \in SUBSET AllRanges : Cardinality(S) <= MaxRanges }
        /\ stack = Sorted(rs)     \* the head is the top
        /\ result = <<>>

(* Puts a range where it belongs, unless it is there *)
Insert(s, r) == IF r \in Elems(s) THEN s
                ELSE LET i == Cardinality({ j \in 1 .. Len(s) : Before(s[j], r) })
                     IN  SubSeq(s, 1, i) \o << r >> \o SubSeq(s, i + 1, Len(s))

Step == /\ stack # <<>>
        /\ UNCHANGED rs
        /\ IF Len(stack) = 1 THEN result' = Append(result, stack[1]) /\ stack' = <<>>
           ELSE LET a == stack[1]  b == stack[2]  rest == SubSeq(stack, 3, Len(stack))
                IN  IF ~Overlap(a, b) THEN result' = Append(result, a) /\ stack' = << b >> \o rest
                    ELSE IF a = b THEN stack' = << b >> \o rest /\ UNCHANGED result
                    ELSE IF a[1] = b[1]
                         THEN stack' = << a >> \o Insert(rest, << a[2] + 1, b[2] >>) /\ UNCHANGED result
                    ELSE /\ result' = Append(result, << a[1], b[1] - 1 >>)
                         /\ stack' = IF b[2] > a[2] THEN << << b[1], a[2] >>, b >> \o rest
                                     ELSE << b, << b[1], a[2] >> >> \o rest
Spec == Init /\ [][Step]_vars /\ WF_vars(Step)

(* Every range that is made is a range *)
Sound   == \A r \in Elems(stack) \cup Elems(result) : r[1] <= r[2] /\ r[1] >= 0 /\ r[2] <= K
Correct == stack = <<>> => /\ Ascending(result)
                           /\ Elems(result) = Partition(rs)
(* The partition is what it should be *)
Defined == result = <<>> => Divides(Partition(rs), rs) /\ Coarsest(Partition(rs), rs)
Ends    == <>(stack = <<>>)

Lookup(s, q) == LET at == Cardinality({ i \in 1 .. Len(s) : Before(s[i], q) })
                    earlier == SelectSeq(SubSeq(s, 1, at), LAMBDA r : r[2] >= q[1])
                    later == SelectSeq(SubSeq(s, at + 1, Len(s)), LAMBDA r : r[1] <= q[2])
                IN  earlier \o later
LookupsFind == result = <<>> => \A q \in AllRanges : IsLookup(Lookup(Sorted(rs), q), rs, q)
=============================================================================
