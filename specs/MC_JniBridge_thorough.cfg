SPECIFICATION Spec
CONSTANT Depth = 5
INVARIANTS Protocol NothingLeft Emit
CHECK_DEADLOCK FALSE
