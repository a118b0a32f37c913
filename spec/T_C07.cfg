SPECIFICATION TSpec
VIEW TView
CHECK_DEADLOCK FALSE
CONSTANTS
  Prepare <- PrepareC07
  Start <- StartC07
  Step <- StepC07
