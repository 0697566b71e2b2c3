INIT GenInit
NEXT GenNext
VIEW View
CONSTANTS MaxN = 3
          MaxSplits = 2
CHECK_DEADLOCK FALSE
