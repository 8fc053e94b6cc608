INIT Init
NEXT Next
INVARIANTS Invertible Separate SizesAgree LeftOver Rounds Emit
CONSTANT Full = FALSE
CHECK_DEADLOCK FALSE
