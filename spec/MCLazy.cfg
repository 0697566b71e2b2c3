SPECIFICATION LSpec
CONSTANTS MaxLen = 4
          Beyond = 3
INVARIANTS ReadsNoFurther Looked
CHECK_DEADLOCK FALSE
