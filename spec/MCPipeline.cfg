CONSTANTS
  Level = 1
  MaxLen = 4
SPECIFICATION Spec
INVARIANTS Answers StopsInTime Deterministic Tidy
PROPERTY Prepared
CHECK_DEADLOCK FALSE
