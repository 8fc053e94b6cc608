SPECIFICATION Spec
INVARIANTS Kept2 Parts Inside Empty Emit
CONSTANTS
 MaxMeshesPer = 2
 MaxOutline = 1
CHECK_DEADLOCK FALSE
