SPECIFICATION Spec
CONSTANTS NH = 3
Depth = 3
INVARIANTS ReadsLikeAValue NoLeak Emit
PROPERTIES PrivateWrites
CHECK_DEADLOCK FALSE
