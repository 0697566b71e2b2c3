CONSTANTS
  N = 3
  MaxOps = 2
  MaxTags = 2
SPECIFICATION Spec
INVARIANTS Kept OneByOne Length
CHECK_DEADLOCK FALSE
