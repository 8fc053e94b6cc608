CONSTANTS N = 5
  W = 3
  H = 3
INIT Init
NEXT Next
INVARIANT Hulls Starts Prunes Emit
CHECK_DEADLOCK FALSE
