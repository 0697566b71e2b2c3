
SPECIFICATION Spec
INVARIANTS NothingLost Before There Kept
CHECK_DEADLOCK FALSE
