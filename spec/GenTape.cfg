INIT GenInit
NEXT GenNext
VIEW View
CONSTANTS MaxN = 14
          MaxCap = 8
CHECK_DEADLOCK FALSE
