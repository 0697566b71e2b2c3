CONSTANTS
  MaxState = 1
  K = 1
  MaxLen = 3
SPECIFICATION Spec
INVARIANTS OneNext FedInOrder Once Comes
PROPERTIES Ends
CHECK_DEADLOCK FALSE
