INIT Init
NEXT Next
INVARIANTS Neighbours Whole
CHECK_DEADLOCK FALSE
