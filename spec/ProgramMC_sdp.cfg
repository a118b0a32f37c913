SPECIFICATION Spec
CONSTANTS
  Depth = 3
  Modes = {"sdp"}
  Emit = FALSE
VIEW StateView
INVARIANT Inv
CHECK_DEADLOCK FALSE
