SPECIFICATION Spec
CONSTANT Forms = TRUE
INVARIANT Report
CHECK_DEADLOCK FALSE
