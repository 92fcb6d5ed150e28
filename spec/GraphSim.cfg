SPECIFICATION Spec
INVARIANT Flatness
CHECK_DEADLOCK FALSE
