----------------------------- MODULE TraceReuse -----------------------------
(***************************************************************************)
(* Validates histories in which matchers are prepared, copied, written and *)
(* read back and used over and over, all at once.  Whatever the automaton  *)
(* of the first matcher is, everything must behave as it does.             *)
(*                                                                         *)
(* obs.tables[i] is what matcher i reports of itself.  Operations:         *)
(* << "fresh" >> prepares another matcher, << "copy", how, i >> copies     *)
(* matcher i; << "len", i, w >> and << "acc", i, w >> match a word; then   *)
(* << "start", i >>, << "step", r, x >>, << "done", r >> run one by hand   *)
(* and << "tok", i, w >>, << "next", t >>, << "item", t >> use tokenizers. *)
(***************************************************************************)
EXTENDS Runner, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES c, l, runs, toks,   \* the history
          m, d, e             \* comparing matcher m with the first: states of both
vars == << c, l, runs, toks, m, d, e >>

Tables == Cases[c].obs.tables
B      == Tables[1]
Ops    == Cases[c].ops
Op     == Ops[l]
Obs    == Cases[c].obs.ev[l]

(* Matchers are numbered as they are made *)
Makes(o)   == o[1] \in {"fresh", "copy"}
Number(i)  == 1 + Cardinality({ j \in 1 .. i : Makes(Ops[j]) })

Init == /\ c \in 1 .. Len(Cases) /\ runs = <<>> /\ toks = <<>>
        /\ \/ l = 1 /\ m = 0 /\ d = 0 /\ e = 0
           \/ l = 0 /\ m \in 2 .. Len(Cases[c].obs.tables) /\ d = 0 /\ e = 0

----------------------------------------------------------------------------
(* Matchers prepared afresh need not number their states in the same way *)

Sym == 0 .. Cases[c].k - 1
Compare == \E x \in Sym : /\ Goes(B, d, x) # -1 /\ Goes(Tables[m], e, x) # -1
                          /\ d' = Goes(B, d, x) /\ e' = Goes(Tables[m], e, x)
                          /\ UNCHANGED << c, l, runs, toks, m >>
Same == m # 0 => /\ B[d + 1].out = Tables[m][e + 1].out
                 /\ \A x \in Sym : /\ (Goes(B, d, x) = -1 /\ Goes(Tables[m], e, x) # -1) => ~Hope(Tables[m], e)
                                   /\ (Goes(B, d, x) # -1 /\ Goes(Tables[m], e, x) = -1) => ~Hope(B, d)

----------------------------------------------------------------------------
(* Uses *)

Match(w, i)   == Through(B, StartRun(B), w, i, 8).r
TokenAt(w, i) == LET r == Match(w, i) IN IF r.len > 0 THEN << i, i + r.len, r.o >> ELSE <<>>
RECURSIVE FirstIn(_, _, _)
FirstIn(w, i, j) == CASE i >= j    -> <<>>
                      [] i + 1 = j -> TokenAt(w, i)
                      [] OTHER     -> LET h == (i + j) \div 2
                                          t == FirstIn(w, i, h)
                                      IN  IF t # <<>> THEN t ELSE FirstIn(w, h, j)
FirstToken(w, i) == FirstIn(w, i, Len(w))

Gone == [d |-> -1, n |-> 0, len |-> -1, o |-> -1]
Found(r) == Obs = << r.len, r.o >>
Token(t, nothing) == /\ Obs = t
                     /\ toks' = [toks EXCEPT ![Op[2]].pos = IF t = <<>> THEN nothing ELSE t[2]]
                     /\ UNCHANGED runs
Step ==
    CASE Op[1] = "fresh" -> UNCHANGED << runs, toks >>
      [] Op[1] = "copy"  -> Tables[Number(l)] = Tables[Op[3]] /\ UNCHANGED << runs, toks >>
      [] Op[1] = "len"   -> Obs = Match(Op[3], 0).len /\ UNCHANGED << runs, toks >>
      [] Op[1] = "acc"   -> Found(Match(Op[3], 0)) /\ UNCHANGED << runs, toks >>
      [] Op[1] = "start" -> /\ LET r == StartRun(B) IN
                               IF Obs = <<>> THEN runs' = Append(runs, r)
                               ELSE MayEnd(B, r) /\ Found(r) /\ runs' = Append(runs, Gone)
                            /\ UNCHANGED toks
      [] Op[1] = "step"  -> /\ LET r == runs[Op[2]] IN
                               IF r.d = -1 THEN Obs = <<>> /\ UNCHANGED runs
                               ELSE IF ~Moves(B, r, Op[3]) THEN Found(r) /\ runs' = [runs EXCEPT ![Op[2]] = Gone]
                               ELSE LET q == StepRun(B, r, Op[3])
                                    IN  IF Obs = <<>> THEN runs' = [runs EXCEPT ![Op[2]] = q]
                                        ELSE MayEnd(B, q) /\ Found(q) /\ runs' = [runs EXCEPT ![Op[2]] = Gone]
                            /\ UNCHANGED toks
      [] Op[1] = "done"  -> /\ LET r == runs[Op[2]] IN
                               IF r.d = -1 THEN Obs = <<>> /\ UNCHANGED runs
                               ELSE Found(r) /\ runs' = [runs EXCEPT ![Op[2]] = Gone]
                            /\ UNCHANGED toks
      [] Op[1] = "tok"   -> toks' = Append(toks, [w |-> Op[3], pos |-> 0]) /\ UNCHANGED runs
      [] Op[1] = "next"  -> LET t == toks[Op[2]] IN Token(TokenAt(t.w, t.pos), t.pos)
      [] Op[1] = "item"  -> LET t == toks[Op[2]] IN Token(FirstToken(t.w, t.pos), Len(t.w))

Finished == l > Len(Ops)
Next == IF m # 0 THEN (IF \E x \in Sym : Goes(B, d, x) # -1 /\ Goes(Tables[m], e, x) # -1 THEN Compare ELSE UNCHANGED vars)
        ELSE IF Finished THEN UNCHANGED vars
        ELSE Step /\ l' = l + 1 /\ UNCHANGED << c, m, d, e >>
Spec == Init /\ [][Next]_vars
=============================================================================
