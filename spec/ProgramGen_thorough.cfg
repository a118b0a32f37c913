SPECIFICATION Spec
CONSTANTS
  Depth = 6
  Modes = {"sdp", "lp"}
  Emit = TRUE
VIEW KindView
INVARIANT Printed
CHECK_DEADLOCK FALSE
