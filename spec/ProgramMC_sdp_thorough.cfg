SPECIFICATION Spec
CONSTANTS
  Depth = 5
  Modes = {"sdp"}
  Emit = FALSE
VIEW StateView
INVARIANT Inv
CHECK_DEADLOCK FALSE
