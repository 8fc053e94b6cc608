INIT Init
NEXT Next
CONSTANT NH = 3
CHECK_DEADLOCK FALSE
POSTCONDITION Accepted
