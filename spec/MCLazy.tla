------------------------------- MODULE MCLazy -------------------------------
(* A tokenizer over a tape reads no further than its matches may; and Look  *)
(* is what it is said to be                                                 *)
EXTENDS MCTokenizer
Lz == INSTANCE Lazy

VARIABLES need
Began == pc' = "match" /\ (pc # "match" \/ begin' # begin)
LInit == Init /\ need = 0
LNext == Next /\ need' = (IF Began THEN Lz!Most(need, Lz!NeedStrictly(toks, w, begin'))
                          ELSE IF pc = "idle" /\ call' = "skip" THEN Lz!Most(need, Smaller(pos + 1, N)) ELSE need)
LSpec == LInit /\ [][LNext]_<< toktape, need >>

Sensible == \A k \in 1 .. Len(toks) : Lz!Possible(toks[k].p)
ReadsNoFurther == Sensible => hi <= need
NeedIsMore == \A i \in 0 .. Len(w) : Lz!Need(toks, w, i) >= Lz!NeedStrictly(toks, w, i)
(* A match reads on while what it has read begins some word (of no more than Beyond symbols more), and then one more *)
CONSTANTS Beyond
Begins(i, n) == \E u \in UNION { [1 .. k -> 0 .. 1] : k \in 0 .. Beyond }, t \in 1 .. Len(toks) : InLanguage(toks[t].p, SubSeq(w, i + 1, i + n) \o u)
LookIsRight == \A i \in 0 .. Len(w) :
    LET n == Lz!Look(toks, w, i)
    IN  /\ i + n <= Len(w)
        /\ ((n > 0 \/ \E t \in 1 .. Len(toks) : NonEmpty(toks[t].p)) => Begins(i, n))
        /\ (i + n < Len(w) => ~Begins(i, n + 1))
Looked == (pc = "idle" /\ call = "none") => LookIsRight /\ NeedIsMore
=============================================================================
