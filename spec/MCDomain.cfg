CONSTANTS
  Split = 1
  Top = 6
  Gap = 2
  MaxRanges = 4
INIT Init
NEXT Next
INVARIANTS OnlySymbols ByRank Facts
CHECK_DEADLOCK FALSE
