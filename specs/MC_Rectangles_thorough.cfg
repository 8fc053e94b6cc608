SPECIFICATION Spec
CONSTANT Depth = 3
INVARIANTS AlwaysOrdered Documented Emit
CHECK_DEADLOCK FALSE
