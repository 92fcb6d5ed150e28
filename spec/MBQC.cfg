SPECIFICATION Spec
INVARIANT RegisterInv
INVARIANT NoGhosts
CHECK_DEADLOCK FALSE
