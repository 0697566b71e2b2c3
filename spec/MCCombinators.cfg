SPECIFICATION Spec
CONSTANTS Level = 2
INVARIANTS SameLanguage SameDeath
CHECK_DEADLOCK FALSE
