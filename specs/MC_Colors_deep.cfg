CONSTANTS N = 2
  Wide = FALSE
INIT Init
NEXT Next
INVARIANT Valid Agree Emit
CHECK_DEADLOCK FALSE
