SPECIFICATION Spec
INVARIANT Recorded
CHECK_DEADLOCK FALSE
