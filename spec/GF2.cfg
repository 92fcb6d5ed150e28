SPECIFICATION Spec
INVARIANT Works
CHECK_DEADLOCK FALSE
