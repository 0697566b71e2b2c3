--------------------------- MODULE TraceThompson ---------------------------
(***************************************************************************)
(* Validates what the implementation does to a machine when it compiles    *)
(* patterns onto it one after the other.  A record is [k, ops |-> calls    *)
(* that made the machine at first, steps |-> patterns, obs |-> for each of *)
(* them [start, ret, calls]]: the state it was compiled from, the state    *)
(* that was returned and the calls that were made on the machine.          *)
(***************************************************************************)
EXTENDS Thompson, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)
(* The machine before each pattern, and after the last *)
Stages == [n \in 1 .. Len(Cases) |->
             FoldLeft(LAMBDA ms, o : Append(ms, ApplyAll(ms[Len(ms)], o.calls)), << ApplyAll(Empty, Cases[n].ops) >>, Cases[n].obs)]

VARIABLES c, i, So, Sn, G
vars == << c, i, So, Sn, G >>

Old == Stages[c][i]
New == Stages[c][i + 1]
Obs == Cases[c].obs[i]
Pat == Cases[c].steps[i].p
(* A state that was returned is one, whatever the machine says *)
Returned == { Cases[c].obs[j].ret : j \in 1 .. i - 1 }

Init == /\ c \in 1 .. Len(Cases) /\ i \in 1 .. Len(Cases[c].obs)
        /\ \E q \in States(Old) \cup Returned : So = Closed(Old, {q}) /\ Sn = Closed(New, {q})
        /\ G = Begin(Old, Obs.start, Pat, So)
Next == \E x \in 0 .. Cases[c].k - 1 :
           LET s == Follow(New, Sn, x)
           IN  /\ s # {} /\ Sn' = s /\ So' = Follow(Old, So, x)
               /\ G' = Later(G, x) \cup Begin(Old, Obs.start, Pat, So')
               /\ UNCHANGED << c, i >>
Spec == Init /\ [][Next]_vars

NothingLost == \A x \in 0 .. Cases[c].k - 1 : Follow(New, Sn, x) # {} \/ (Later(G, x) = {} /\ Follow(Old, So, x) = {})
Before == SameBefore(Old, Returned, So, Sn)
There  == LeadsThere(So, Sn, G, Obs.ret)
Kept   == Keeps(Old, New)
=============================================================================
