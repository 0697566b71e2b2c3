CONSTANTS
  Depth = 2
  MaxLen = 4
  MaxOps = 2
INIT GenInit
NEXT VNext
