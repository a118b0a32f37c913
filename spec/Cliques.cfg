SPECIFICATION Spec
CONSTANT N = 4
INVARIANTS Partial Final
CHECK_DEADLOCK FALSE
