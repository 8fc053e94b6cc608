CONSTANTS N = 1
  Wide = FALSE
INIT Init
NEXT Next
INVARIANT Valid Agree Emit
CHECK_DEADLOCK FALSE
