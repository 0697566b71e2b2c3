SPECIFICATION Spec
CONSTANTS MaxN = 9
          MaxCap = 16
INVARIANTS Holds SizeOk
PROPERTIES Refines
CHECK_DEADLOCK FALSE
