SPECIFICATION Spec
CONSTANTS Level = 1
          MaxLen = 5
INVARIANTS ResidualsAgree LongestAgrees ViableFinishes
PROPERTIES DeadStaysDead
CHECK_DEADLOCK FALSE
