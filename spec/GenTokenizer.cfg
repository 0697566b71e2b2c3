INIT GenInit
NEXT GenNext
CONSTANTS MaxLen = 3
          MaxOps = 3
