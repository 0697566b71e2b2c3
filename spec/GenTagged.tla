----------------------------- MODULE GenTagged -----------------------------
(* Behaviours with every list of up to MaxTags ranges, allowed or not, applied to every stream that can be made *)
EXTENDS MCTagged, Json
VARIABLE hist
gen == << vars, hist >>
Emit(t) == hist' = Append(hist, t) /\ PrintT("@@" \o ToJson([n |-> N, lists |-> hist']))
Asked == UNION { [1 .. n -> (0 .. N + 1) \X (0 .. N + 1) \X {ops}] : n \in 0 .. MaxTags }
GenInit == Init /\ hist = <<>>
GenNext == /\ ops < MaxOps /\ ops' = ops + 1
           /\ \E t \in Asked : /\ ts' = t /\ before' = s /\ s' = (IF Allowed(s, t) THEN TagAll(s, t) ELSE s)
                             /\ Emit(t)
View == << s, ops >>
=============================================================================
