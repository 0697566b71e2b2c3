---------------------------- MODULE TraceTagged ----------------------------
(***************************************************************************)
(* Validates histories of real tagged streams.  Streams are numbered from  *)
(* 1 as they are made.  Operations:                                        *)
(*   << "new", w >>                from_reader                             *)
(*   << "tag", i, t, a, z >>       tag stream i                            *)
(*   << "over", i, t, a, z >>      tag_range                               *)
(*   << "with", i, ts >>           with_tags: a new stream                 *)
(*   << "copy", i >>, << "inner", i, n >>  a copy of a stream, or of what  *)
(*                                 element n holds, if that is a tag       *)
(*   << "look", i, n >>            element n                               *)
(*   << "read", i >>               what read_symbols and len give          *)
(*   << "same", i, j >>            whether they are equal                  *)
(*   << "tokenize", i, us, ts, step >>     with the map that takes the     *)
(*        n-th element to us[x] (base symbol x) or ts[t] (tag t), plus     *)
(*        n * step, modulo k: a new stream                                 *)
(*   << "fromtok", w, reader >>    from_tokenized_reader: a new stream     *)
(* For each the harness notes whether it was refused (ref), the result (r) *)
(* and what all of the streams are after it (all).  For tokenize and       *)
(* fromtok it also notes the elements that the map was called with (calls) *)
(* and what the tokenizer itself finds in the mapped symbols (toks).       *)
(* C18 judges tagging and C19 tokenizing.                                  *)
(***************************************************************************)
EXTENDS Tagged, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)
Judge == IOEnv.PROP

VARIABLES c, l, all
vars == << c, l, all >>
Op  == Cases[c].ops[l]
Obs == Cases[c].obs.ev[l]
Mine == Judge = (IF Op[1] \in {"tokenize", "fromtok"} THEN "C19" ELSE "C18")

Init == c \in 1 .. Len(Cases) /\ l = 1 /\ all = <<>>

Changed(i, s) == [all EXCEPT ![i] = s]
Outcome(ok, streams) == Obs.ref = ~ok /\ all' = (IF ok THEN streams ELSE all)
Mapped(s, us, ts, step) == [ n \in 1 .. Len(s) |-> ((IF Len(s[n]) = 1 THEN us[s[n][1] + 1] ELSE ts[s[n][1] + 1]) + (n - 1) * step) % Cases[c].k ]

(* The stream is there and the map has something for each of its elements (if not, then tagging has gone wrong, which C18 judges) *)
Known(i, us, ts) == i <= Len(all) /\ \A n \in 1 .. Len(all[i]) : all[i][n][1] + 1 \in DOMAIN (IF Len(all[i][n]) = 1 THEN us ELSE ts)

(* Tags for what a tokenizer found.  If that can't be right it is for other properties to say so. *)
Tokens(s) == IF Allowed(s, Obs.toks) THEN Outcome(TRUE, Append(all, TagAll(s, Obs.toks))) ELSE all' = Obs.all

Step ==
    CASE Op[1] = "new"   -> Outcome(TRUE, Append(all, Plain(Op[2])))
      [] Op[1] = "tag"   -> LET s == all[Op[2]] IN
                            Outcome(InRange(s, Op[4], Op[5]), IF InRange(s, Op[4], Op[5]) THEN Changed(Op[2], TagOne(s, Op[4], Op[5], Op[3])) ELSE all)
      [] Op[1] = "over"  -> LET s == all[Op[2]]
                                ok == InRange(s, Op[4], Op[5])
                            IN  Outcome(ok, all) /\ (ok => Obs.r = TagOver(s, Op[4], Op[5], Op[3])) = TRUE
      [] Op[1] = "with"  -> LET s == all[Op[2]] IN
                            Outcome(Allowed(s, Op[3]), IF Allowed(s, Op[3]) THEN Append(all, TagAll(s, Op[3])) ELSE all)
      [] Op[1] = "copy"  -> Outcome(TRUE, Append(all, all[Op[2]]))
      [] Op[1] = "inner" -> LET s == all[Op[2]]
                                ok == Op[3] < Len(s) /\ Len(s[Op[3] + 1]) = 2
                            IN  Outcome(ok, IF ok THEN Append(all, s[Op[3] + 1][2]) ELSE all)
      [] Op[1] = "look"  -> LET s == all[Op[2]]
                                ok == Op[3] < Len(s)
                            IN  Outcome(ok, all) /\ (ok => Obs.r = s[Op[3] + 1]) = TRUE
      [] Op[1] = "read"  -> Outcome(TRUE, all) /\ Obs.r = << Len(all[Op[2]]), all[Op[2]] >>
      [] Op[1] = "same"  -> Outcome(TRUE, all) /\ Obs.r = (all[Op[2]] = all[Op[3]])
      [] Op[1] = "tokenize" -> IF Known(Op[2], Op[3], Op[4])
                               THEN LET s == all[Op[2]]
                                    IN  /\ Tokens(s)
                                        /\ Obs.w = Mapped(s, Op[3], Op[4], Op[5])
                                        /\ Obs.calls = s
                               ELSE all' = Obs.all
      [] Op[1] = "fromtok"  -> Tokens(Plain(Op[2]))

Finished == l > Len(Cases[c].ops)
Next == IF Finished THEN UNCHANGED vars
        ELSE /\ IF Mine THEN Step /\ all' = Obs.all ELSE all' = Obs.all
             /\ l' = l + 1 /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
=============================================================================
