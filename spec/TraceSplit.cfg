SPECIFICATION Spec
INVARIANTS Ok
