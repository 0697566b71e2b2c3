--------------------------- MODULE TraceInterval ---------------------------
(***************************************************************************)
(* Validates what real ranges say of each other.  A case has pairs of      *)
(* ranges over k symbols of some type; for each pair the harness notes     *)
(* [lo, hi: the ends of the first; inc: which symbols it includes; ov:     *)
(* whether they overlap; join; cmp and pcmp: how they compare; rel: what   *)
(* <, <=, >, >=, = and /= say; mm: the smaller and the larger].  Also all  *)
(* pairs of the first 12 symbols that made a range (made), and all of the  *)
(* first ranges sorted (sorted).                                           *)
(***************************************************************************)
EXTENDS Interval, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, l
K     == Cases[c].k
Pairs == Cases[c].pairs
Obs   == Cases[c].obs.ev[l]
Init == c \in 1 .. Len(Cases) /\ l = 0
Next == l < Len(Pairs) /\ l' = l + 1 /\ UNCHANGED c

R == Pairs[l][1]
Q == Pairs[l][2]
Says == l > 0 =>
    /\ << Obs.lo, Obs.hi >> = R
    /\ { Obs.inc[i] : i \in 1 .. Len(Obs.inc) } = Symbols(R)
    /\ Obs.ov = Overlaps(R, Q)
    /\ Covers(Obs.join, R, Q) /\ Obs.join[1] \in { R[1], Q[1] } /\ Obs.join[2] \in { R[2], Q[2] }
    /\ Obs.join = << IF R[1] < Q[1] THEN R[1] ELSE Q[1], IF R[2] > Q[2] THEN R[2] ELSE Q[2] >>
    /\ Obs.cmp = Compare(R, Q) /\ Obs.pcmp = Compare(R, Q)
    /\ LET o == Compare(R, Q) IN /\ Obs.rel = << o < 0, o <= 0, o > 0, o >= 0, o = 0, o # 0 >>
                                 /\ Obs.mm = (IF o > 0 THEN << Q, R >> ELSE << R, Q >>)
Makes == l = 0 => /\ { Cases[c].obs.made[i] : i \in 1 .. Len(Cases[c].obs.made) } = Ranges((IF K < 12 THEN K ELSE 12) - 1)
                  /\ LET s == Cases[c].obs.sorted
                     IN  /\ { s[i] : i \in 1 .. Len(s) } = { Pairs[i][1] : i \in 1 .. Len(Pairs) }
                         /\ Len(s) = Len(Pairs)
                         /\ \A i \in 1 .. Len(s) - 1 : Compare(s[i], s[i + 1]) <= 0
=============================================================================
