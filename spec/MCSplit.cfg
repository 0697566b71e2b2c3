SPECIFICATION Spec
CONSTANTS MaxN = 3
          MaxSplits = 2
INVARIANTS SameAnswers SamePulls HeldIsKept Ok
CHECK_DEADLOCK FALSE
