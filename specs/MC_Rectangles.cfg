SPECIFICATION Spec
CONSTANT Depth = 2
INVARIANTS AlwaysOrdered Documented Emit
CHECK_DEADLOCK FALSE
