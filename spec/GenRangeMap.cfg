INIT GenInit
NEXT GenNext
CONSTANTS K = 3
          MaxRanges = 10
