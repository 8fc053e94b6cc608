SPECIFICATION Spec
CONSTANTS NH = 2
Cap = 2
Depth = 4
INVARIANTS Bounded Emit
CHECK_DEADLOCK FALSE
