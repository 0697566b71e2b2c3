------------------------------ MODULE MCSplit ------------------------------
(* The queues implement the splitting of readers: both are run side by     *)
(* side, and always give the same answers, have taken the same from the    *)
(* source, and hold no more than has to be kept.                           *)
EXTENDS Split, SplitBuf, TLC

CONSTANTS MaxN, MaxSplits

VARIABLES st, answer    \* answer: << what the specification, what the queues gave >> on the last read
vars == << N, pos, par, alive, st, answer >>

Init == \E n \in 0 .. MaxN : SplitInit(n) /\ st = BufInit(n) /\ answer = << 0, 0 >>
DoRead(r) == /\ pos[r] <= N
             /\ Read(r, 1)
             /\ LET got == BufRead(st, r)
                IN  st' = got[1] /\ answer' = << Answers(pos[r], 1)[1][1], got[2] >>
DoSplit(r) == /\ Len(st.nodes) < MaxSplits
              /\ Split(r) /\ st' = BufSplit(st, r) /\ UNCHANGED answer
DoDrop(r)  == Drop(r) /\ st' = BufDrop(st, r) /\ UNCHANGED answer
Next == \E r \in Readers : DoRead(r) \/ DoSplit(r) \/ DoDrop(r)
Spec == Init /\ [][Next]_vars

SameAnswers == answer[1] = answer[2]
SamePulls   == st.pulls = Pulls
HeldIsKept  == Held(st) = MostKept
Ok          == SplitOk
=============================================================================
