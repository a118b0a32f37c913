SPECIFICATION Spec
CONSTANTS
  Depth = 5
  Modes = {"lp"}
  Emit = FALSE
VIEW StateView
INVARIANT Inv
CHECK_DEADLOCK FALSE
