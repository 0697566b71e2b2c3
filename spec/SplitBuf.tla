------------------------------ MODULE SplitBuf ------------------------------
(***************************************************************************)
(* How the implementation does it: each split has a queue of the answers   *)
(* that one of its readers is past and the other is not, and the positions *)
(* of both relative to the queue (Gone for a reader that was dropped).     *)
(* The state is a record st:                                               *)
(*   n       symbols in the source          pulls   answers taken from it  *)
(*   nodes   splits: [under |-> reader split, buf |-> queue, p |-> <<_,_>>]*)
(*   rd      readers: [node |-> split, i |-> 1 or 2] (the root is 1)       *)
(***************************************************************************)
EXTENDS Integers, Sequences

Gone == 999

BufInit(n) == [n |-> n, pulls |-> 0, nodes |-> <<>>, rd |-> << [node |-> 0, i |-> 0] >>]

LowestOf(p) == IF p[1] < p[2] THEN p[1] ELSE p[2]
(* Drops answers that every reader is past *)
Cleared(nd) == LET low == LowestOf(nd.p)
               IN  IF low = Gone THEN nd
                   ELSE [nd EXCEPT !.buf = SubSeq(nd.buf, low + 1, Len(nd.buf)),
                                   !.p   = [i \in 1 .. 2 |-> IF nd.p[i] = Gone THEN Gone ELSE nd.p[i] - low]]

(* One read by reader r: << state, answer >> *)
RECURSIVE BufRead(_, _)
BufRead(st, r) ==
    IF r = 1 THEN << [st EXCEPT !.pulls = @ + 1], IF st.pulls < st.n THEN st.pulls ELSE -1 >>
    ELSE LET id == st.rd[r].node
             i  == st.rd[r].i
             nd == st.nodes[id]
             at == nd.p[i]
         IN  IF at >= Len(nd.buf)
             THEN LET got == BufRead(st, nd.under)
                      st2 == got[1]
                      nd2 == [nd EXCEPT !.buf = Append(@, got[2]), !.p[i] = at + 1]
                  IN  << [st2 EXCEPT !.nodes[id] = IF at = 0 THEN Cleared(nd2) ELSE nd2], got[2] >>
             ELSE LET nd2 == [nd EXCEPT !.p[i] = at + 1]
                  IN  << [st EXCEPT !.nodes[id] = IF at = 0 THEN Cleared(nd2) ELSE nd2], nd.buf[at + 1] >>

BufSplit(st, r) == [st EXCEPT !.nodes = Append(@, [under |-> r, buf |-> <<>>, p |-> << 0, 0 >>]),
                              !.rd    = @ \o << [node |-> Len(st.nodes) + 1, i |-> 1], [node |-> Len(st.nodes) + 1, i |-> 2] >>]

BufDrop(st, r) == LET id == st.rd[r].node
                  IN  [st EXCEPT !.nodes[id] = Cleared([@ EXCEPT !.p[st.rd[r].i] = Gone])]

(* Symbols (not ends) in the queues of splits that still have a reader *)
RECURSIVE SymbolsIn(_)
SymbolsIn(b) == IF b = <<>> THEN 0 ELSE (IF Head(b) = -1 THEN 0 ELSE 1) + SymbolsIn(Tail(b))
RECURSIVE HeldFrom(_, _)
HeldFrom(nodes, k) == IF k > Len(nodes) THEN 0
                      ELSE (IF LowestOf(nodes[k].p) = Gone THEN 0 ELSE SymbolsIn(nodes[k].buf)) + HeldFrom(nodes, k + 1)
Held(st) == HeldFrom(st.nodes, 1)
=============================================================================
