------------------------------ MODULE MCCodec ------------------------------
(* Whatever outputs can be written faithfully, so can the accept table *)
EXTENDS Codec, TLC
CONSTANT Depth
VARIABLES ty, v
RECURSIVE Types(_)
Types(n) == IF n = 0 THEN {Unit, Int2} ELSE LET U == Types(n - 1) IN U \cup { Opt(T) : T \in U } \cup { Tup(T) : T \in U }
Init == ty \in Types(Depth) /\ v \in Vals(Accepting(ty))
Next == UNCHANGED << ty, v >>
TableFaithful == Faithful(ty) => Dec(Accepting(ty), Enc(Accepting(ty), v)) = v
(* Without the tuple it would not be: units (and optional outputs) would come back as rejecting states *)
ASSUME Faithful(Unit) /\ ~Faithful(Opt(Unit)) /\ Faithful(Accepting(Unit)) /\ Faithful(Opt(Int2)) /\ ~Faithful(Opt(Opt(Int2)))
=============================================================================
