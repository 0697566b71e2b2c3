CONSTANTS
  N = 4
INIT Init
NEXT Next
INVARIANTS OverlapByEnds IncludeByEnds JoinByEnds Lattice Total
CHECK_DEADLOCK FALSE
