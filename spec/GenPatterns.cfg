INIT GenInit
NEXT GenNext
CONSTANTS Level = 2
          MaxLen = 0
