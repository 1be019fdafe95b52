SPECIFICATION Spec
INVARIANT Inv
CONSTANT STEP = 5
CHECK_DEADLOCK FALSE
