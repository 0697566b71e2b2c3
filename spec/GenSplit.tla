------------------------------ MODULE GenSplit ------------------------------
(* Behaviours that take trees of split readers through every transition of *)
(* the graph of their queues, printed to be replayed on real readers.      *)
EXTENDS Split, SplitBuf, TLC, Json

CONSTANTS MaxN, MaxSplits

VARIABLES st, hist

Emit(op) == /\ hist' = Append(hist, op)
            /\ PrintT("@@" \o ToJson([n |-> N, ops |-> hist', readers |-> Len(pos'), alive |-> alive']))

GenInit == SplitInit(MaxN) /\ st = BufInit(MaxN) /\ hist = <<>>
GenNext == \E r \in Readers :
              \/ pos[r] <= N /\ Read(r, 1) /\ st' = BufRead(st, r)[1] /\ Emit(<< "r", r, 1 >>)
              \/ Len(st.nodes) < MaxSplits /\ Split(r) /\ st' = BufSplit(st, r) /\ Emit(<< "s", r, 0 >>)
              \/ Drop(r) /\ st' = BufDrop(st, r) /\ Emit(<< "d", r, 0 >>)
View == << st, alive >>
=============================================================================
