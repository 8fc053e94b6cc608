SPECIFICATION Spec
CONSTANTS Depth = 3
C = 2
INVARIANTS Hull Emit
CHECK_DEADLOCK FALSE
