INIT Init
NEXT Next
CONSTANTS Pi = 1078530011
TwoPi = 1086918619
CHECK_DEADLOCK FALSE
POSTCONDITION Accepted
