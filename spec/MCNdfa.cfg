SPECIFICATION Spec
CONSTANTS MaxState = 2
          MaxOps = 3
          K = 1
INVARIANTS JoinsAgree FixWorks CountOk
CHECK_DEADLOCK FALSE
