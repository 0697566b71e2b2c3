------------------------------ MODULE MCLevels ------------------------------
(***************************************************************************)
(* Tokenizers that pull symbols through each other, each with a tape of    *)
(* its own of which it reads only what its match needs, implement Levels:  *)
(* what has been pulled from a level is always a beginning of what Levels  *)
(* says that it gives, all of it when the level above has seen its end,    *)
(* and so the answers at the top are those of a tokenizer over that word.  *)
(***************************************************************************)
EXTENDS Levels, TLC
CONSTANTS Depth, MaxLen

(* Level 1 reads the source.  A level is [toks, buf, pos, ended]: its tape  *)
(* has taken buf from the level below, and it is at pos in that.            *)
VARIABLES word, src, lv, did, ans
vars == << word, src, lv, did, ans >>

L(s) == [t |-> "lit", s |-> s]
G(a, b) == [t |-> "rng", a |-> a, b |-> b]
Star(p) == [t |-> "inf", n |-> 0, p |-> p]
Plus(p) == [t |-> "inf", n |-> 1, p |-> p]
Seq2(p, q) == [t |-> "all", ps |-> << p, q >>]
T(o, p) == [p |-> p, o |-> o]
LevelSets == {
    << T(0, L(<<0>>)), T(1, L(<<1>>)) >>,
    << T(1, Plus(L(<<0>>))), T(0, L(<<1>>)) >>,
    << T(0, L(<<0>>)), T(1, L(<<0, 0, 1>>)), T(1, L(<<1>>)) >>,
    << T(1, G(0, 1)), T(0, L(<<0, 1>>)) >>,
    << T(0, Star(L(<<0>>))), T(1, L(<<1, 1>>)) >>,
    << T(0, Seq2(Star(L(<<0>>)), L(<<1>>))), T(1, L(<<0>>)) >> }
Words == UNION { [1 .. n -> 0 .. 1] : n \in 0 .. MaxLen }

Tail0(s, r) == [s |-> s, r |-> r]
(* One symbol from below level i, on to its tape *)
RECURSIVE Sym(_, _), Scan(_, _, _, _, _)
Below(s, i) == IF i = 1 THEN IF s.src < Len(word) THEN Tail0([s EXCEPT !.src = @ + 1], << word[s.src + 1] >>) ELSE Tail0(s, <<>>)
               ELSE Sym(s, i - 1)
Fill(s, i) == IF s.lv[i].ended THEN Tail0(s, <<>>)
              ELSE LET b == Below(s, i) IN IF b.r = <<>> THEN Tail0([b.s EXCEPT !.lv[i].ended = TRUE], <<>>) ELSE Tail0([b.s EXCEPT !.lv[i].buf = @ \o b.r], b.r)
Decided(s, i, st) == IF st.len > 0 THEN Tail0([s EXCEPT !.lv[i].pos = @ + st.len], << s.lv[i].pos, s.lv[i].pos + st.len, st.o >>) ELSE Tail0(s, <<>>)
(* Matches on: n symbols so far *)
Scan(s, i, S, n, st) ==
    IF S = {} THEN Decided(s, i, st)
    ELSE LET at == s.lv[i].pos + n + 1
             f  == IF at <= Len(s.lv[i].buf) THEN Tail0(s, << s.lv[i].buf[at] >>) ELSE Fill(s, i)
         IN  IF f.r = <<>> THEN Decided(f.s, i, st)
             ELSE LET S2 == After(S, f.r[1]) IN Scan(f.s, i, S2, n + 1, IF Output(S2) = -1 THEN st ELSE [len |-> n + 1, o |-> Output(S2)])
Token(s, i) == Scan(s, i, Start(s.lv[i].toks), 0, [len |-> -1, o |-> -1])
Sym(s, i) == LET t == Token(s, i) IN Tail0(t.s, IF t.r = <<>> THEN <<>> ELSE << t.r[3] >>)
Skip(s, i) == LET at == s.lv[i].pos + 1
                  f  == IF at <= Len(s.lv[i].buf) THEN Tail0(s, << s.lv[i].buf[at] >>) ELSE Fill(s, i)
              IN  IF f.r = <<>> THEN f ELSE Tail0([f.s EXCEPT !.lv[i].pos = @ + 1], f.r)

Whole == [src |-> src, lv |-> lv]
Do(call, t) == src' = t.s.src /\ lv' = t.s.lv /\ ans' = t.r /\ did' = << call, lv[Depth].pos >> /\ UNCHANGED word
VInit == \E ls \in [1 .. Depth -> LevelSets], u \in Words :
            word = u /\ src = 0 /\ did = << "none", 0 >> /\ ans = <<>>
            /\ lv = [ i \in 1 .. Depth |-> [toks |-> ls[i], buf |-> <<>>, pos |-> 0, ended |-> FALSE] ]
VNext == \/ Do("token", Token(Whole, Depth))
         \/ Do("skip", Skip(Whole, Depth))
VSpec == VInit /\ [][VNext]_vars

Names == [ i \in 1 .. Depth |-> lv[i].toks ]
(* The word that level i reads *)
Reads(i) == Top(SubSeq(Names, 1, i - 1), word)
(* A level has taken a beginning of it; all of it, when it has seen the end *)
Taken == \A i \in 1 .. Depth : IsPrefix(lv[i].buf, Reads(i)) /\ (lv[i].ended => lv[i].buf = Reads(i)) /\ lv[i].pos <= Len(lv[i].buf)
(* The answer is what the last tokenizer says *)
Answers == did[1] # "none" =>
    LET v == Reads(Depth)
    IN  /\ did[1] = "token" => ans = TokenIn(lv[Depth].toks, v, did[2]) /\ lv[Depth].pos = (IF ans = <<>> THEN did[2] ELSE ans[2])
        /\ did[1] = "skip"  => ans = (IF did[2] < Len(v) THEN << v[did[2] + 1] >> ELSE <<>>) /\ lv[Depth].pos = did[2] + Len(ans)
=============================================================================
