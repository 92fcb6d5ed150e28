SPECIFICATION Spec
INVARIANT Sane
PROPERTY Calm
CHECK_DEADLOCK FALSE
