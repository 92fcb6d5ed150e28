SPECIFICATION Spec
INVARIANT BuiltInv
CHECK_DEADLOCK FALSE
