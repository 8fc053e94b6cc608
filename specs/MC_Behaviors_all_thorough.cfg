CONSTANTS N = 6 All = 1
INIT Init
NEXT Next
INVARIANT Agree Emit
CONSTRAINT Limit
CHECK_DEADLOCK FALSE
