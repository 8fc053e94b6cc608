INIT Init
NEXT Next
CONSTANT C = 1
INVARIANTS Composes Determinants Units Inverts Emit
CHECK_DEADLOCK FALSE
