INIT Init
NEXT Next
CONSTANT MaxMicro = 40
INVARIANT Safe
VIEW V
CHECK_DEADLOCK FALSE
