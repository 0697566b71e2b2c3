SPECIFICATION KSpec
CONSTANTS MaxLen = 4
INVARIANTS KeepsNoMore Looked
CHECK_DEADLOCK FALSE
