INIT Init
NEXT Next
CONSTANTS W = 3
 H = 2
 Emit = TRUE
 Share = 1
INVARIANT Agree
CHECK_DEADLOCK FALSE
