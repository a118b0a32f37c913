SPECIFICATION TSpec
VIEW TView
CHECK_DEADLOCK FALSE
CONSTANTS
  Prepare <- PrepareC01
  Start <- StartC01
  Step <- StepC01
