SPECIFICATION TSpec
VIEW TView
CHECK_DEADLOCK FALSE
CONSTANTS
  Prepare <- PrepareC08
  Start <- StartC08
  Step <- StepC08
