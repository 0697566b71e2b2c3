------------------------------- MODULE Tagged -------------------------------
(***************************************************************************)
(* Tagged streams: sequences whose elements are << x >>, the base symbol   *)
(* x, or << t, s >>, the tag t holding the stream s.                       *)
(* Ranges are << a, z >>: from position a (the first is 0) to before z.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

Plain(w)     == [ i \in 1 .. Len(w) |-> << w[i] >> ]
Part(s, a, z) == SubSeq(s, a + 1, z)

(* A list of << a, z, tag >> that can be applied to a stream *)
InRange(s, a, z) == 0 <= a /\ a <= z /\ z <= Len(s)
Allowed(s, ts)   == /\ \A i \in 1 .. Len(ts) : InRange(s, ts[i][1], ts[i][2])
                    /\ \A i \in 1 .. Len(ts) - 1 : ts[i][2] <= ts[i + 1][1]

TagOver(s, a, z, t) == << t, Part(s, a, z) >>
TagOne(s, a, z, t)  == Part(s, 0, a) \o << TagOver(s, a, z, t) >> \o Part(s, z, Len(s))

RECURSIVE TagFrom(_, _, _)
(* The stream from position p on, with the tags ts *)
TagFrom(s, ts, p) == IF ts = <<>> THEN Part(s, p, Len(s))
                     ELSE Part(s, p, ts[1][1]) \o << TagOver(s, ts[1][1], ts[1][2], ts[1][3]) >> \o TagFrom(s, Tail(ts), ts[1][2])
TagAll(s, ts) == TagFrom(s, ts, 0)

(* The base symbols from left to right *)
RECURSIVE Leaves(_)
Leaves(s) == IF s = <<>> THEN <<>>
             ELSE (IF Len(s[1]) = 1 THEN s[1] ELSE Leaves(s[1][2])) \o Leaves(Tail(s))
=============================================================================
