CONSTANT N = 2
INIT Init
NEXT Next
INVARIANT Always Emit
CHECK_DEADLOCK FALSE
