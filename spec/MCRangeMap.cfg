SPECIFICATION Spec
CONSTANTS K = 4
          MaxRanges = 15
INVARIANTS Sound Correct Defined LookupsFind
PROPERTIES Ends
CHECK_DEADLOCK FALSE
