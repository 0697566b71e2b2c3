------------------------------- MODULE Split -------------------------------
(***************************************************************************)
(* Splitting a reader gives two readers of the same stream.  Either can be *)
(* split again, so readers make a tree; the reader numbered 1 is the root: *)
(* the source itself.  A reader that has been split can't be read until    *)
(* both of its halves were dropped; it then carries on after the furthest  *)
(* symbol that any of them read.                                           *)
(*                                                                         *)
(* The n-th answer of the source is the symbol n, for n < N, then its end. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES N,       \* symbols in the source
          pos,     \* pos[r]: how many answers of the source reader r is past
          par,     \* par[r]: the reader that was split to make r (0 for the root)
          alive    \* alive[r]: it was not dropped
split == << N, pos, par, alive >>

End == -1
Max(S) == CHOOSE m \in S : \A n \in S : n <= m
MinOf(S) == CHOOSE m \in S : \A n \in S : m <= n

Readers   == 1 .. Len(pos)
Halves(r) == { k \in Readers : par[k] = r }
LiveHalves(r) == { k \in Halves(r) : alive[k] }
Busy(r)   == LiveHalves(r) # {}
Usable(r) == alive[r] /\ ~Busy(r)

SplitInit(n) == N = n /\ pos = << 0 >> /\ par = << 0 >> /\ alive = << TRUE >>

RECURSIVE Ancestors(_)
Ancestors(r) == IF par[r] = 0 THEN {} ELSE { par[r] } \cup Ancestors(par[r])

(* r reads count times: whatever it was split from is then at least as far *)
Read(r, count) ==
    /\ Usable(r) = TRUE
    /\ LET to == pos[r] + count
           up == Ancestors(r)
       IN  pos' = [q \in Readers |-> IF q = r THEN to
                                     ELSE IF q \in up THEN Max({pos[q], to}) ELSE pos[q]]
    /\ UNCHANGED << N, par, alive >>

Split(r) == /\ Usable(r) = TRUE
            /\ pos'   = pos \o << pos[r], pos[r] >>
            /\ par'   = par \o << r, r >>
            /\ alive' = alive \o << TRUE, TRUE >>
            /\ UNCHANGED N

Drop(r) == /\ (Usable(r) /\ r # 1) = TRUE
           /\ alive' = [alive EXCEPT ![r] = FALSE]
           /\ UNCHANGED << N, pos, par >>

(* Answers to count reads from a position, as runs of ascending symbols *)
Answers(from, count) == LET left == IF from < N THEN N - from ELSE 0
                            m    == IF count < left THEN count ELSE left
                        IN  (IF m > 0 THEN << << from, m >> >> ELSE <<>>)
                            \o (IF count > m THEN << << End, count - m >> >> ELSE <<>>)

(* The source was asked once for everything that any reader is past *)
Pulls == pos[1]
(* What has to be kept for the slower halves: the symbols between the slowest live half and the reader that was split *)
Symbols(p) == IF p < N THEN p ELSE N
Kept(r)    == IF Busy(r) THEN Symbols(pos[r]) - Symbols(MinOf({ pos[k] : k \in LiveHalves(r) })) ELSE 0
RECURSIVE SumTo(_)
SumTo(k)   == IF k = 0 THEN 0 ELSE Kept(k) + SumTo(k - 1)
MostKept   == SumTo(Len(pos))

SplitOk == /\ \A r \in Readers : par[r] # 0 => pos[r] <= pos[par[r]]
           /\ \A r \in Readers : (par[r] # 0 /\ alive[r]) => alive[par[r]]
=============================================================================
