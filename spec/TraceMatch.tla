----------------------------- MODULE TraceMatch -----------------------------
(***************************************************************************)
(* Validates results of running the implementation's matchers over words,  *)
(* in every way that it offers.  Each is the length of the longest prefix  *)
(* in the language of any of the tokens (-1: there is none) and the rank   *)
(* of the lowest token matching that prefix (-2: not reported).            *)
(*                                                                         *)
(* The specification reads each word one symbol at a time, remembering the *)
(* last position where it could accept.                                    *)
(***************************************************************************)
EXTENDS Pattern, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES c,      \* the case
          w,      \* which of its words is being read
          i,      \* symbols read so far
          R,      \* what remains to be matched
          best    \* [len, o]: the longest match so far
vars == << c, w, i, R, best >>

Word == Cases[c].words[w]
None == [len |-> -1, o |-> -1]
Begin == LET S == Start(Cases[c].toks)
         IN  /\ i' = 0 /\ R' = S
             /\ best' = IF Output(S) = -1 THEN None ELSE [len |-> 0, o |-> Output(S)]

Init == /\ c \in 1 .. Len(Cases) /\ w = 0 /\ i = 0 /\ R = {} /\ best = None

Undecided == w > 0 /\ i < Len(Word) /\ Viable(R)

Read == /\ LET S == After(R, Word[i + 1])
           IN  /\ R' = S
               /\ best' = IF Output(S) = -1 THEN best ELSE [len |-> i + 1, o |-> Output(S)]
        /\ i' = i + 1
        /\ UNCHANGED << c, w >>

NextWord == /\ w < Len(Cases[c].words)
            /\ w' = w + 1
            /\ Begin
            /\ UNCHANGED c

(* As IF, so that TLC evaluates Undecided rather than branching on its witnesses *)
Next == IF Undecided THEN Read ELSE NextWord
Spec == Init /\ [][Next]_vars

ResultsAgree ==
    (w > 0 /\ ~Undecided) =>
        LET results == Cases[c].obs.res[w]
        IN  \A n \in 1 .. Len(results) : results[n][2] = best.len /\ results[n][3] \in {-2, best.o}
=============================================================================
