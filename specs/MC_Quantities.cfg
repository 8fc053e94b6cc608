SPECIFICATION Spec
CONSTANTS Pi = 6
TwoPi = 12
Span = 100
INVARIANTS Equivalent Ranged
CHECK_DEADLOCK FALSE
