INIT Init
NEXT Next
CONSTANTS N = 3
 W = 2
 B = 3
INVARIANT SearchIsAnswer
CHECK_DEADLOCK FALSE
