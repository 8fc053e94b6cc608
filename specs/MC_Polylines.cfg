CONSTANTS N = 5
  W = 3
  Steps = {1, 2, 3}
INIT Init
NEXT Next
INVARIANT Order Cuts Quiet Closed General Emit
CHECK_DEADLOCK FALSE
