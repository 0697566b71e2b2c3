---------------------------- MODULE MCTokenizer ----------------------------
(* TokTape implements Tokenizer: every call ends, with the answer and the  *)
(* position that Tokenizer gives it; and iterating covers the input.       *)
EXTENDS TokTape, TLC

CONSTANTS MaxLen

L(s) == [t |-> "lit", s |-> s]
G(a, b) == [t |-> "rng", a |-> a, b |-> b]
Star(p) == [t |-> "inf", n |-> 0, p |-> p]
Plus(p) == [t |-> "inf", n |-> 1, p |-> p]
Opt(p)  == [t |-> "rep", m |-> 0, n |-> 2, p |-> p]
Seq2(p, q) == [t |-> "all", ps |-> << p, q >>]
Or2(p, q) == [t |-> "any", ps |-> << p, q >>]
T(o, p) == [p |-> p, o |-> o]
Eps == [t |-> "eps"]
TokenSets == {
    << >>,
    << T(0, Eps) >>,
    << T(0, Star(L(<<0>>))) >>,
    << T(1, Plus(L(<<0>>))), T(0, L(<<1>>)) >>,
    << T(0, L(<<0>>)), T(1, L(<<0, 0, 0>>)) >>,
    << T(1, Plus(G(0, 1))), T(0, L(<<0, 1>>)) >>,
    << T(0, Seq2(Star(L(<<0>>)), L(<<1>>))) >>,
    << T(0, L(<<0>>)), T(2, Seq2(L(<<0>>), Seq2(Star(L(<<1>>)), L(<<0>>)))) >>,
    << T(3, Opt(L(<<1>>))), T(3, L(<<1, 0>>)), T(1, Or2(L(<<1, 1, 0>>), Eps)) >>,
    << T(0, Seq2(Plus(L(<<0>>)), L(<<1>>))), T(1, L(<<0, 0>>)) >>,
    << T(5, Plus(L(<<0, 1>>))), T(4, L(<<1, 0, 0>>)), T(0, [t |-> "any", ps |-> <<>>]) >> }

Words == UNION { [1 .. n -> 0 .. 1] : n \in 0 .. MaxLen }

Init == \E ts \in TokenSets, word \in Words : TTInit(ts, word)
Next == CallToken \/ CallItem \/ CallSkip \/ Work
Spec == Init /\ [][Next]_toktape /\ WF_toktape(Work)

A == INSTANCE Tokenizer WITH failed <- ended

(* Answers *)
CallsAgree ==
    (pc = "idle" /\ call # "none") =>
        LET t == IF call = "token" THEN A!TokenAt(from) ELSE A!FirstToken(from)
        IN  CASE call = "skip" -> IF from < Len(w) THEN res = << w[from + 1] >> /\ pos = from + 1 ELSE res = <<>> /\ pos = from
              [] call = "token" -> res = t /\ pos = (IF t = <<>> THEN from ELSE t[2])
              [] call = "item" -> res = t /\ pos = (IF t = <<>> THEN Len(w) ELSE t[2])
(* A failure at the end is seen, and the end is never reported before it *)
EndAgrees ==
    pc = "idle" => /\ AtEnd => pos = Len(w)
                   /\ (call # "none" /\ res = <<>> /\ pos = Len(w)) => AtEnd
(* A token is never empty, and is what the denotation of the patterns says it is *)
TokensMaximal ==
    (pc = "idle" /\ call \in {"token", "item"} /\ res # <<>>) =>
        LET suffix == SubSeq(w, res[1] + 1, Len(w))
            longest == { LongestPrefix(toks[k].p, suffix) : k \in 1 .. Len(toks) }
        IN  /\ res[2] > res[1]
            /\ \A n \in longest : n <= res[2] - res[1]
            /\ res[3] = Lowest({ toks[k].o : k \in { j \in 1 .. Len(toks) : InLanguage(toks[j].p, SubSeq(w, res[1] + 1, res[2])) } })
(* The tape is never asked to rewind past its cut *)
RewindsAllowed == pc \in {"match", "after"} => begin >= lo
CallsEnd == pc # "idle" ~> pc = "idle"
=============================================================================
