------------------------------ MODULE Readers ------------------------------
(***************************************************************************)
(* A pipeline of symbol readers.  A source gives a script: what it answers *)
(* to each request, a symbol or End (also what a byte stream's error reads *)
(* as, and after which there may be more).  When the script is over it     *)
(* answers End for ever.                                                   *)
(* Layers are applied from the source up:                                  *)
(*   << "map", c, step >>   takes its n-th symbol x to x + c + n * step    *)
(*   << "filter", m >>      leaves out multiples of m                      *)
(*   << "eager" >>          has read all that there is before the end      *)
(*   << "pass" >>           anything else                                  *)
(* with symbols modulo K.                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets
End == -1

(* The runs of symbols between ends. Each symbol has the number of symbols *)
(* that the source had given when it had given this one                    *)
Segments(script) ==
    LET ends   == SelectSeq([ i \in 1 .. Len(script) |-> i ], LAMBDA i : script[i] = End)
        from(g) == IF g = 1 THEN 0 ELSE ends[g - 1]
        upto(g) == IF g = Len(ends) + 1 THEN Len(script) ELSE ends[g] - 1
    IN  [ g \in 1 .. Len(ends) + 1 |-> [ i \in 1 .. upto(g) - from(g) |-> << script[from(g) + i], from(g) + i - (g - 1) >> ] ]

(* What a layer makes of them *)
Through(segs, layer, k) ==
    CASE layer[1] = "map"    -> FoldLeft(LAMBDA a, s : [segs |-> Append(a.segs, [ i \in 1 .. Len(s) |-> << (s[i][1] + layer[2] + (a.n + i - 1) * layer[3]) % k, s[i][2] >> ]), n |-> a.n + Len(s)],
                                         [segs |-> <<>>, n |-> 0], segs).segs
      [] layer[1] = "filter" -> [ g \in 1 .. Len(segs) |-> SelectSeq(segs[g], LAMBDA x : x[1] % layer[2] # 0) ]
      [] layer[1] = "eager"  -> << segs[1] >>
      [] OTHER               -> segs
Delivers(script, layers, k) == FoldLeft(LAMBDA s, l : Through(s, l, k), Segments(script), layers)

IsEager(layers) == \E i \in 1 .. Len(layers) : layers[i][1] = "eager"

(* Where reading has got to: p symbols of run g have been delivered; or it has stopped after run g *)
Begin == [g |-> 1, p |-> 0, stopped |-> FALSE]
More(segs, at) == ~at.stopped /\ at.p < Len(segs[at.g])
(* The answer to a request, and where that leaves things: an end may be kept *)
Answer(segs, at) == IF More(segs, at) THEN segs[at.g][at.p + 1][1] ELSE End
After(segs, at)  == IF More(segs, at) THEN { [at EXCEPT !.p = @ + 1] }
                    ELSE { [at EXCEPT !.stopped = TRUE] } \cup (IF ~at.stopped /\ at.g < Len(segs) THEN { [at EXCEPT !.g = @ + 1, !.p = 0] } ELSE {})
(* All up to the end *)
Rest(segs, at)   == IF at.stopped THEN <<>> ELSE [ i \in 1 .. Len(segs[at.g]) - at.p |-> segs[at.g][at.p + i][1] ]
AfterRest(segs, at) == After(segs, IF at.stopped THEN at ELSE [at EXCEPT !.p = Len(segs[at.g])])

(* How many symbols a source has given by then, if no more than it was asked for *)
Sum(segs, g) == FoldLeft(LAMBDA a, x : a + Len(x), 0, SubSeq(segs, 1, g))
Taken(script, segs, at) == IF at.stopped THEN Sum(Segments(script), at.g)
                           ELSE IF at.p = 0 THEN Sum(Segments(script), at.g - 1)
                           ELSE segs[at.g][at.p][2]
=============================================================================
