CONSTANT CS = 4096
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
POSTCONDITION Accepted
