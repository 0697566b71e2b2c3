SPECIFICATION Spec
INVARIANTS KeepsNoMore AllReleased
CHECK_DEADLOCK FALSE
