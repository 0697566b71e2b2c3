SPECIFICATION Spec
INVARIANTS NonOverlapping Lookups
CHECK_DEADLOCK FALSE
