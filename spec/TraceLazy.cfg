SPECIFICATION Spec
INVARIANTS NoFurther Enough Once
CHECK_DEADLOCK FALSE
