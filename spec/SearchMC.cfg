SPECIFICATION Spec
CONSTANTS
  N = 16
  Slopes = {1, 2, 4}
  Pieces = 2
INVARIANTS Honest Inside Few Justified Reported
PROPERTY Stops
CHECK_DEADLOCK FALSE
