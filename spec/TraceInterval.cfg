INIT Init
NEXT Next
INVARIANTS Says Makes
CHECK_DEADLOCK FALSE
