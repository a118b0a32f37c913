SPECIFICATION Spec
CONSTANTS
  Depth = 4
  Modes = {"sdp", "lp"}
  Emit = TRUE
VIEW KindView
INVARIANT Printed
CHECK_DEADLOCK FALSE
