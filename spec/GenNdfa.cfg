INIT GenInit
NEXT GenNext
VIEW View
CONSTANTS MaxState = 2
          MaxOps = 3
          K = 1
          Points = FALSE
CHECK_DEADLOCK FALSE
