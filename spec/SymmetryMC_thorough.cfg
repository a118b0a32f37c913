SPECIFICATION Spec
CONSTANT L = 3
INVARIANT Inv
CHECK_DEADLOCK FALSE
