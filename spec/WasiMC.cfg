INIT Init
NEXT Next
CONSTANT Post <- NoPost
INVARIANT Safe
VIEW V
CHECK_DEADLOCK FALSE
