SPECIFICATION Spec
CONSTANTS Depth = 2
CS = 1
INVARIANTS Upright SameShape HasCorners Emit
PROPERTY JoinsAll
CHECK_DEADLOCK FALSE
