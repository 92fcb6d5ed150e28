SPECIFICATION Spec
INVARIANT TypeOK
INVARIANT StrictIsStd
INVARIANT Monotone
CHECK_DEADLOCK FALSE
