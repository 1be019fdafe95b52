SPECIFICATION Spec
INVARIANT Inverse
CHECK_DEADLOCK FALSE
