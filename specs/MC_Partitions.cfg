SPECIFICATION Spec
INVARIANTS Partitions Best Monotone Emit
CONSTANTS
 Depth = 3
 Limits = {3, 4, 5, 6, 7}
CHECK_DEADLOCK FALSE
