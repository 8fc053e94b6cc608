CONSTANTS N = 7 All = 0
INIT Init
NEXT Next
INVARIANT Agree Emit
CONSTRAINT Limit
CHECK_DEADLOCK FALSE
