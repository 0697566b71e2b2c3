CONSTANT Level = 1
INIT GenInit
NEXT GenNext
CHECK_DEADLOCK FALSE
