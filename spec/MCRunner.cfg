CONSTANTS
  MaxState = 1
  K = 1
  MaxLen = 4
SPECIFICATION Spec
INVARIANTS FindsLongest Decided HopeExact
CHECK_DEADLOCK FALSE
