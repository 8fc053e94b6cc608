SPECIFICATION Spec
CONSTANTS Depth = 2
C = 2
INVARIANTS Hull Emit
CHECK_DEADLOCK FALSE
