CONSTANT N = 3
INIT Init
NEXT Next
INVARIANT Always Emit
CHECK_DEADLOCK FALSE
