SPECIFICATION Spec
INVARIANTS Protocol Agrees StopsOnlyWhenDone
CHECK_DEADLOCK FALSE
