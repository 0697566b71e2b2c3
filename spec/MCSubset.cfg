CONSTANTS
  MaxState = 2
  MaxTrans = 2
  K = 1
SPECIFICATION Spec
INVARIANTS Enough Protocol Simulates
PROPERTY Ends
CHECK_DEADLOCK FALSE
