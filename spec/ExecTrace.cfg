SPECIFICATION Spec
INVARIANT Report
VIEW V
CHECK_DEADLOCK FALSE
