CONSTANTS
  MaxScript = 3
  MaxLayers = 2
  K = 3
INIT GenInit
NEXT Next
