SPECIFICATION Spec
CONSTANTS M = 3
 L = 4
 X = 1
VIEW StateView
INVARIANT Inv
CHECK_DEADLOCK FALSE
