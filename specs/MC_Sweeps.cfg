CONSTANTS
  Cs = {0, 2, 5}
  Rs = {0, 1, 3}
  MaxStates = 3
  MaxCalls = 2
INIT Init
NEXT Next
INVARIANTS Same Sound Restored Emit
CHECK_DEADLOCK FALSE
