CONSTANTS N = 1
  Wide = TRUE
INIT Init
NEXT Next
INVARIANT Valid Agree Emit
CHECK_DEADLOCK FALSE
