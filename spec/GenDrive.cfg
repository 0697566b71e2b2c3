CONSTANTS
  MaxState = 1
  K = 1
  MaxLen = 3
INIT GenInit
NEXT GenNext
CHECK_DEADLOCK FALSE
