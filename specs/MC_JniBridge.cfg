SPECIFICATION Spec
CONSTANT Depth = 4
INVARIANTS Protocol NothingLeft Emit
CHECK_DEADLOCK FALSE
