----------------------------- MODULE TraceKept -----------------------------
(***************************************************************************)
(* Validates how much real tokenizers and tapes keep.  A record is         *)
(* [top, toks, w, ops, obs]: the source gives w again and again; symbols   *)
(* count how many of them there are.  ev is how many more of them there    *)
(* are after each call than there were before the first (for a match: each *)
(* time that a symbol is asked for), as << kept, how often >>; left is how *)
(* many there are when everything has been dropped.                        *)
(***************************************************************************)
EXTENDS Kept, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
ASSUME \A x \in 1 .. Len(Cases) : \A t \in 1 .. Len(Cases[x].toks) : Possible(Cases[x].toks[t].p)

VARIABLES c, bound
Case == Cases[c]
Bound == CASE Case.top = "tape"  -> Furthest(Case.ops)
           [] Case.top = "match" -> 0
           [] OTHER              -> Stretch(Case.toks, Case.w)
Init == c \in 1 .. Len(Cases) /\ bound = Bound
Next == UNCHANGED << c, bound >>
Spec == Init /\ [][Next]_<< c, bound >>

KeepsNoMore == bound # Endless => \A j \in 1 .. Len(Case.obs.ev) : Case.obs.ev[j] <= Slack(bound)
AllReleased == Case.obs.left = 0
=============================================================================
