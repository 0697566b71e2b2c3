------------------------------ MODULE Pipeline ------------------------------
(***************************************************************************)
(* The whole way from tokens to an answer, as the implementation goes it:  *)
(* tokens are compiled onto one machine one after the other, its ranges    *)
(* are divided so that none overlap, sets of states are worked through,    *)
(* the blocks are given to a builder that joins neighbouring ranges, and   *)
(* the automaton runs over a word that comes symbol by symbol.  The other  *)
(* modules say of each part that it does what it should; here they are put *)
(* together, and the answers are compared with what patterns denote.       *)
(***************************************************************************)
EXTENDS Subset
T  == INSTANCE Thompson
RM == INSTANCE RangeMap
RN == INSTANCE Runner
P  == INSTANCE Pattern

VARIABLES toks,    \* << [p |-> pattern, o |-> output], .. >>
          phase,   \* "compile", "determinise", "run", "over"
          next,    \* the token to compile next
          dfa,     \* blocks
          run,     \* as in Runner
          word     \* what was read
pipeline == << compiler, toks, phase, next, dfa, run, word >>

PipeInit(ts) == /\ toks = ts /\ phase = "compile" /\ next = 1 /\ m = Empty /\ CompileInit
                /\ dfa = <<>> /\ run = <<>> /\ word = <<>>

(* A token accepts in a state of its own *)
CompileToken ==
    /\ phase = "compile" /\ next <= Len(toks)
    /\ LET c == T!Compile(T!At(m, 0), toks[next].p)
           a == Count(c.m)
       IN  m' = Set(Join(c.m, c.s, a), a, toks[next].o)
    /\ next' = next + 1
    /\ UNCHANGED << todo, blocks, toks, phase, dfa, run, word >>

Divided(ts) == LET parts == RM!Partition({ << t[2], t[3] >> : t \in ts })
               IN  UNION { { << t[1], q[1], q[2], t[4] >> : q \in { r \in parts : RM!Overlap(r, << t[2], t[3] >>) } } : t \in ts }
Divide ==
    /\ phase = "compile" /\ next > Len(toks)
    /\ m' = [m EXCEPT !.trans = Divided(@)]
    /\ phase' = "determinise"
    /\ UNCHANGED << todo, blocks, toks, next, dfa, run, word >>

Determinise == phase = "determinise" /\ Process /\ UNCHANGED << toks, phase, next, dfa, run, word >>

(* The builder's part: neighbours that lead to the same state are one *)
Merge(tr) == FoldLeft(LAMBDA a, t : IF a # <<>> /\ a[Len(a)][3] = t[3] /\ a[Len(a)][2] + 1 = t[1]
                                    THEN [a EXCEPT ![Len(a)] = << @[1], t[2], t[3] >>] ELSE Append(a, t), <<>>, tr)
Merged(b) == [ i \in 1 .. Len(b) |-> [b[i] EXCEPT !.tr = Merge(@)] ]
Build ==
    /\ phase = "determinise" /\ todo = <<>>
    /\ dfa' = Merged(Built) /\ run' = RN!StartRun(dfa')
    /\ phase' = "run"
    /\ UNCHANGED << compiler, toks, next, word >>

Read(x) ==
    /\ phase = "run"
    /\ word' = Append(word, x)
    /\ IF RN!Moves(dfa, run, x) THEN run' = RN!StepRun(dfa, run, x) /\ phase' = phase
       ELSE run' = run /\ phase' = "over"
    /\ UNCHANGED << compiler, toks, next, dfa >>
Prepare == CompileToken \/ Divide \/ Determinise \/ Build
----------------------------------------------------------------------------
(* What should be answered, from what patterns denote alone *)
Lengths    == { P!LongestPrefix(toks[i].p, word) : i \in 1 .. Len(toks) }
RightLen   == Largest(Lengths \cup {-1})
Which      == { toks[i].o : i \in { j \in 1 .. Len(toks) : P!LongestPrefix(toks[j].p, word) = RightLen } }
RightAnswer == RightLen = run.len /\ (run.len # -1 => run.o = Least(Which))
(* Nothing could have followed *)
NoMore == LET R == FoldLeft(P!After, P!Start(toks), word) IN ~P!Viable(R)
=============================================================================
