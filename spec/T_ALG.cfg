SPECIFICATION TSpec
VIEW TView
CHECK_DEADLOCK FALSE
CONSTANTS
  Prepare <- PrepareALG
  Start <- StartALG
  Step <- StepALG
