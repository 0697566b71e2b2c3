CONSTANTS
  N = 3
  MaxOps = 2
  MaxTags = 2
INIT GenInit
NEXT GenNext
VIEW View
CHECK_DEADLOCK FALSE
