INIT Init
NEXT Next
INVARIANTS Allowed Patient
CHECK_DEADLOCK FALSE
