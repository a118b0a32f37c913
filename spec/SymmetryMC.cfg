SPECIFICATION Spec
CONSTANT L = 2
INVARIANT Inv
CHECK_DEADLOCK FALSE
