CONSTANT N = 3
INIT Init
NEXT Next
INVARIANT Line Steps Bezier Emit
CHECK_DEADLOCK FALSE
