SPECIFICATION Spec
INVARIANT Normal
CHECK_DEADLOCK FALSE
