SPECIFICATION TSpec
VIEW TView
CHECK_DEADLOCK FALSE
CONSTANTS
  Prepare <- PrepareC06
  Start <- StartC06
  Step <- StepC06
