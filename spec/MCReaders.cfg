CONSTANTS
  MaxScript = 4
  MaxLayers = 2
  K = 3
INIT Init
NEXT Next
INVARIANTS Allowed Lazy
CHECK_DEADLOCK FALSE
