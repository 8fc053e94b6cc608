INIT Init
NEXT Next
CONSTANT C = 2
INVARIANTS Composes Determinants Units Inverts
CHECK_DEADLOCK FALSE
