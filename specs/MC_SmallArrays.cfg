SPECIFICATION Spec
CONSTANTS NH = 2
Cap = 2
Depth = 3
INVARIANTS Bounded Emit
CHECK_DEADLOCK FALSE
