SPECIFICATION Spec
INVARIANTS ResultsAgree
CHECK_DEADLOCK FALSE
