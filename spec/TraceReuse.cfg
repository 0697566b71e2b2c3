SPECIFICATION Spec
INVARIANTS Same
