INIT GenInit
NEXT Next
CONSTANTS Level = 1
          MaxLen = 0
