INIT Init
NEXT Next
INVARIANTS Invertible Separate SizesAgree LeftOver Rounds Emit
CONSTANT Full = TRUE
CHECK_DEADLOCK FALSE
