SPECIFICATION Spec
INVARIANTS Partitions Best Monotone
CONSTANTS
 Depth = 4
 Limits = {3, 4, 5, 6, 7}
CHECK_DEADLOCK FALSE
