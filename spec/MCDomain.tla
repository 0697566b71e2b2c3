------------------------------ MODULE MCDomain ------------------------------
(***************************************************************************)
(* Dividing ranges over a type with a gap: the algorithm of MCRangeMap,    *)
(* moving with next and prev, divides as it would if the symbols were      *)
(* numbered 0, 1, 2 and so on (so what is matched is up to the order of    *)
(* symbols only); and it never asks for the symbol after the last or       *)
(* before the first.  Next and prev undo each other.                       *)
(***************************************************************************)
EXTENDS RangeMap, Domain, TLC, SequencesExt
CONSTANTS Split, Top, Gap, MaxRanges
D == << << 0, Split >>, << Split + Gap + 1, Top >> >>

VARIABLES rs, stack, result
vars == << rs, stack, result >>
AllRanges == { r \in Values(D) \X Values(D) : r[1] <= r[2] }
Sorted(S) == SetToSortSeq(S, Before)
Ranked(r) == << Rank(D, r[1]), Rank(D, r[2]) >>

Init == /\ rs \in { S \in SUBSET AllRanges : Cardinality(S) <= MaxRanges }
        /\ stack = Sorted(rs) /\ result = <<>>
Insert(s, r) == IF r \in Elems(s) THEN s
                ELSE LET i == Cardinality({ j \in 1 .. Len(s) : Before(s[j], r) })
                     IN  SubSeq(s, 1, i) \o << r >> \o SubSeq(s, i + 1, Len(s))
(* Asking for a neighbour that isn't there is an error of evaluation *)
Next == /\ stack # <<>>
        /\ UNCHANGED rs
        /\ IF Len(stack) = 1 THEN result' = Append(result, stack[1]) /\ stack' = <<>>
           ELSE LET a == stack[1]  b == stack[2]  rest == SubSeq(stack, 3, Len(stack))
                IN  IF ~Overlap(a, b) THEN result' = Append(result, a) /\ stack' = << b >> \o rest
                    ELSE IF a = b THEN stack' = << b >> \o rest /\ UNCHANGED result
                    ELSE IF a[1] = b[1]
                         THEN /\ Assert(HasNext(D, a[2]), "no next")
                              /\ stack' = << a >> \o Insert(rest, << NextOf(D, a[2]), b[2] >>) /\ UNCHANGED result
                    ELSE /\ Assert(HasPrev(D, b[1]), "no prev")
                         /\ result' = Append(result, << a[1], PrevOf(D, b[1]) >>)
                         /\ stack' = IF b[2] > a[2] THEN << << b[1], a[2] >>, b >> \o rest
                                     ELSE << b, << b[1], a[2] >> >> \o rest
Spec == Init /\ [][Next]_vars

OnlySymbols == \A r \in Elems(stack) \cup Elems(result) : r \in AllRanges
ByRank == stack = <<>> => { Ranked(r) : r \in Elems(result) } = Partition({ Ranked(r) : r \in rs })
Undo   == \A x \in Values(D) : /\ HasNext(D, x) => PrevOf(D, NextOf(D, x)) = x /\ Rank(D, NextOf(D, x)) = Rank(D, x) + 1
                               /\ HasPrev(D, x) => NextOf(D, PrevOf(D, x)) = x
(* Runs of the same step are what they should be *)
Runs   == \A r \in AllRanges : \A d \in 1 .. Gap + 2 :
             (\E b \in 1 .. 2 : D[b][1] <= r[1] /\ r[2] <= D[b][2]) =>
                /\ StepsUp(D, r[1], r[2], d) = (\A x \in (r[1] .. r[2]) \cap Values(D) : IF HasNext(D, x) THEN NextOf(D, x) - x = d ELSE d = 1)
                /\ StepsDown(D, r[1], r[2], d) = (\A x \in (r[1] .. r[2]) \cap Values(D) : IF HasPrev(D, x) THEN x - PrevOf(D, x) = d ELSE d = 1)
Facts == result = <<>> /\ rs = {} => Undo /\ Runs
=============================================================================
