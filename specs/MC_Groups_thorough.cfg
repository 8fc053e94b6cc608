SPECIFICATION Spec
INVARIANTS Kept2 Parts Inside Empty Emit
CONSTANTS
 MaxMeshesPer = 2
 MaxOutline = 2
CHECK_DEADLOCK FALSE
