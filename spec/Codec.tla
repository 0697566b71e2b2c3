------------------------------- MODULE Codec -------------------------------
(***************************************************************************)
(* Writing values in a format where nothing but the text is kept (like     *)
(* JSON): absence and the unit are both null, and a value that is there is *)
(* written as itself.  The accept table of an automaton is written as      *)
(* optional one-tuples of outputs.                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Unit == [t |-> "unit"]
Int2 == [t |-> "int"]
Opt(T) == [t |-> "opt", of |-> T]
Tup(T) == [t |-> "tup", of |-> T]

(* Values, as sequences so that they can be compared *)
RECURSIVE Vals(_), Enc(_, _), Dec(_, _)
Vals(T) == CASE T.t = "unit" -> { << "unit" >> }
             [] T.t = "int"  -> { << "int", 0 >>, << "int", 1 >> }
             [] T.t = "opt"  -> { << "none" >> } \cup { << "some", v >> : v \in Vals(T.of) }
             [] T.t = "tup"  -> { << "tup", v >> : v \in Vals(T.of) }
Null == << "null" >>
Enc(T, v) == CASE T.t = "unit" -> Null
               [] T.t = "int"  -> << "number", v[2] >>
               [] T.t = "opt"  -> IF v[1] = "none" THEN Null ELSE Enc(T.of, v[2])
               [] T.t = "tup"  -> << "array", Enc(T.of, v[2]) >>
Dec(T, j) == CASE T.t = "unit" -> << "unit" >>
               [] T.t = "int"  -> << "int", j[2] >>
               [] T.t = "opt"  -> IF j = Null THEN << "none" >> ELSE << "some", Dec(T.of, j) >>
               [] T.t = "tup"  -> << "tup", Dec(T.of, j[2]) >>
Faithful(T) == \A v \in Vals(T) : Dec(T, Enc(T, v)) = v

Accepting(T) == Opt(Tup(T))
=============================================================================
