INIT Init
NEXT Next
CONSTANTS NH = 2
Cap = 255
CHECK_DEADLOCK FALSE
POSTCONDITION Accepted
