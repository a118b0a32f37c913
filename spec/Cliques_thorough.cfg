SPECIFICATION Spec
CONSTANT N = 5
INVARIANTS Partial Final
CHECK_DEADLOCK FALSE
