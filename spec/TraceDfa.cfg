SPECIFICATION Spec
INVARIANTS TargetsExist OutputAgrees StopsOnlyWhenDone
CHECK_DEADLOCK FALSE
