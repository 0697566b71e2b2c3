SPECIFICATION VSpec
CONSTANTS Depth = 3
          MaxLen = 5
INVARIANTS Taken Answers
CHECK_DEADLOCK FALSE
