CONSTANTS N = 5
  W = 2
  H = 2
INIT Init
NEXT Next
INVARIANT Triangles Cutting Turning Flat Emit
CHECK_DEADLOCK FALSE
