SPECIFICATION Spec
CONSTANTS
  Depth = 3
  Modes = {"lp"}
  Emit = FALSE
VIEW StateView
INVARIANT Inv
CHECK_DEADLOCK FALSE
