----------------------------- MODULE MCReaders -----------------------------
(***************************************************************************)
(* How the library's readers work: a request goes down through the layers  *)
(* to the source, and its answer comes back up.  A filter asks again when  *)
(* it leaves the answer out, a map counts, an eager layer has asked for    *)
(* everything at the start, a layer that keeps to its end doesn't ask      *)
(* again.  The source makes reads of an input, which can be interrupted    *)
(* (and is then asked again).  For every input and pipeline within the     *)
(* bounds, the answers are those of the specification, and no more is      *)
(* taken from the source than was asked for.                               *)
(***************************************************************************)
EXTENDS Readers, TLC
CONSTANTS MaxScript, MaxLayers, K
Interrupted == -2

Layers == { << "map", 1, 0 >>, << "map", 0, 1 >>, << "filter", 2 >>, << "eager" >>, << "pass" >>, << "keep" >> }

(* A state of the pipeline: how much of the input is gone, how many symbols it gave, and what each layer remembers *)
Memory == [n |-> 0, ended |-> FALSE, all |-> <<>>]

VARIABLES input, layers, st, possible, answer
vars == << input, layers, st, possible, answer >>
Segs == Delivers(SelectSeq(input, LAMBDA x : x # Interrupted), layers, K)

RECURSIVE Ask(_, _, _, _), AskAll(_, _, _, _)
(* One request to layer i of a pipeline in state s: the answer x and the next state *)
Ask(in, ls, i, s) ==
    IF i = 0 THEN
        IF s.pos = Len(in) THEN [x |-> End, s |-> s]
        ELSE LET t == [s EXCEPT !.pos = @ + 1]
                 x == in[t.pos]
             IN  IF x = Interrupted THEN Ask(in, ls, 0, t)
                 ELSE [x |-> x, s |-> IF x = End THEN t ELSE [t EXCEPT !.given = @ + 1]]
    ELSE CASE ls[i][1] = "eager" -> LET q == s.mem[i].all
                                    IN  IF q = <<>> THEN [x |-> End, s |-> s] ELSE [x |-> Head(q), s |-> [s EXCEPT !.mem[i].all = Tail(q)]]
           [] ls[i][1] = "keep" /\ s.mem[i].ended -> [x |-> End, s |-> s]
           [] OTHER ->
              LET r == Ask(in, ls, i - 1, s)
              IN  CASE ls[i][1] = "map" /\ r.x # End -> [x |-> (r.x + ls[i][2] + r.s.mem[i].n * ls[i][3]) % K, s |-> [r.s EXCEPT !.mem[i].n = @ + 1]]
                    [] ls[i][1] = "filter" /\ r.x # End /\ r.x % ls[i][2] = 0 -> Ask(in, ls, i, r.s)
                    [] ls[i][1] = "keep" /\ r.x = End -> [x |-> End, s |-> [r.s EXCEPT !.mem[i].ended = TRUE]]
                    [] OTHER -> r
AskAll(in, ls, i, s) == LET r == Ask(in, ls, i, s)
                        IN  IF r.x = End THEN [all |-> <<>>, s |-> r.s]
                            ELSE LET more == AskAll(in, ls, i, r.s) IN [all |-> << r.x >> \o more.all, s |-> more.s]

RECURSIVE Made(_, _, _, _)
(* The layers are put on from the source up *)
Made(in, ls, i, s) == IF i > Len(ls) THEN s
                      ELSE IF ls[i][1] = "eager" THEN LET r == AskAll(in, ls, i - 1, s) IN Made(in, ls, i + 1, [r.s EXCEPT !.mem[i].all = r.all])
                      ELSE Made(in, ls, i + 1, s)

Init == /\ input  \in UNION { [1 .. n -> 0 .. K - 1 \cup { End, Interrupted }] : n \in 0 .. MaxScript }
        /\ layers \in UNION { [1 .. n -> Layers] : n \in 0 .. MaxLayers }
        /\ st = Made(input, layers, 1, [pos |-> 0, given |-> 0, mem |-> [ i \in 1 .. Len(layers) |-> Memory ]])
        /\ possible = { Begin } /\ answer = -3

One == LET r == Ask(input, layers, Len(layers), st)
       IN  /\ st' = r.s /\ answer' = r.x
           /\ possible' = UNION { After(Segs, at) : at \in { at \in possible : Answer(Segs, at) = r.x } }
Vec == LET r == AskAll(input, layers, Len(layers), st)
       IN  /\ st' = r.s /\ answer' = -3
           /\ possible' = UNION { AfterRest(Segs, at) : at \in { at \in possible : Rest(Segs, at) = r.all } }
Next == (One \/ Vec) /\ UNCHANGED << input, layers >>
Spec == Init /\ [][Next]_vars

Allowed == possible # {}
(* Without an eager layer, what the source has given is what was needed for the answers so far *)
Lazy == ~IsEager(layers) => \E at \in possible : st.given = Taken(SelectSeq(input, LAMBDA x : x # Interrupted), Segs, at)
=============================================================================
