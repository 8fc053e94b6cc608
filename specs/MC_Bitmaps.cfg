CONSTANT N = 60
INIT Init
NEXT Next
INVARIANT Round Product Sym Dist Grows
CHECK_DEADLOCK FALSE
