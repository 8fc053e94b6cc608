SPECIFICATION Spec
CONSTANT Depth = 4
INVARIANT RoundTrip
CHECK_DEADLOCK FALSE
