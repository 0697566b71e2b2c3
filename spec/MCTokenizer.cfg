SPECIFICATION Spec
CONSTANTS MaxLen = 4
INVARIANTS CallsAgree EndAgrees TokensMaximal TapeOk RewindsAllowed
PROPERTIES CallsEnd
CHECK_DEADLOCK FALSE
