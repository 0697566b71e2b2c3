INIT GenInit
NEXT GenNext
CONSTANTS Level = 2
