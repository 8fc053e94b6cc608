SPECIFICATION Spec
CONSTANTS NH = 3
Depth = 4
INVARIANTS ReadsLikeAValue NoLeak Emit
PROPERTIES PrivateWrites
CHECK_DEADLOCK FALSE
