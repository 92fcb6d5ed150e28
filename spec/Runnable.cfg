SPECIFICATION Spec
INVARIANT Disjoint
INVARIANT Causal
INVARIANT OnceOnly
CHECK_DEADLOCK FALSE
