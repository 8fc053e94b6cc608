SPECIFICATION Spec
CONSTANT Depth = 6
INVARIANT RoundTrip
CHECK_DEADLOCK FALSE
