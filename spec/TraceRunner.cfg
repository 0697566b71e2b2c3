SPECIFICATION Spec
INVARIANTS Reported
