------------------------------- MODULE Domain -------------------------------
(***************************************************************************)
(* Types of symbols.  A type is a sequence of << lowest, highest >> blocks *)
(* of consecutive numbers, in ascending order; between blocks there are    *)
(* numbers that are no symbols.                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Char == << << 0, 55295 >>, << 57344, 1114111 >> >>

(* Where the number x is: the block *)
BlockOf(D, x) == CHOOSE b \in 1 .. Len(D) : D[b][1] <= x /\ x <= D[b][2]
HasNext(D, x) == x < D[Len(D)][2]
HasPrev(D, x) == x > D[1][1]
NextOf(D, x)  == LET b == BlockOf(D, x) IN IF x < D[b][2] THEN x + 1 ELSE D[b + 1][1]
PrevOf(D, x)  == LET b == BlockOf(D, x) IN IF x > D[b][1] THEN x - 1 ELSE D[b - 1][2]
Values(D)     == UNION { D[b][1] .. D[b][2] : b \in 1 .. Len(D) }
(* How many symbols there are before x *)
Rank(D, x)    == Cardinality({ y \in Values(D) : y < x })

(* The same for a run of symbols a .. z within a block, as steps to the next and from the previous: those of its inside are all 1 *)
StepsUp(D, a, z, d)   == IF a = z /\ HasNext(D, a) THEN d = NextOf(D, a) - a
                         ELSE /\ d = 1
                              /\ z <= D[BlockOf(D, a)][2] - (IF BlockOf(D, a) = Len(D) THEN 0 ELSE 1)
StepsDown(D, a, z, d) == IF a = z /\ HasPrev(D, a) THEN d = a - PrevOf(D, a)
                         ELSE /\ d = 1
                              /\ a >= D[BlockOf(D, z)][1] + (IF BlockOf(D, z) = 1 THEN 0 ELSE 1)
=============================================================================
