SPECIFICATION Spec
CONSTANTS
  N = 16
  Slopes = {1, 3}
  Pieces = 3
INVARIANTS Honest Inside Few Justified Reported
PROPERTY Stops
CHECK_DEADLOCK FALSE
