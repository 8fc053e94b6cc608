SPECIFICATION Spec
CONSTANTS
  Depth = 5
  Times = {1, 2}
INVARIANTS Owned NotFreed Ordered Emit
PROPERTIES Independent StrokesFixed
CHECK_DEADLOCK FALSE
