SPECIFICATION Spec
INVARIANTS NeverTrapped DepthLeast
CHECK_DEADLOCK FALSE
