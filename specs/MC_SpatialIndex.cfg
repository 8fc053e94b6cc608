INIT Init
NEXT Next
CONSTANTS N = 4
 W = 1
 B = 3
INVARIANT SearchIsAnswer
CHECK_DEADLOCK FALSE
