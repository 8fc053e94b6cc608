INIT Init
NEXT Next
CONSTANTS W = 2
 H = 2
 Emit = TRUE
 Share = 4
INVARIANT Agree
CHECK_DEADLOCK FALSE
