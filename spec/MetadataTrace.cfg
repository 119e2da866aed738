CONSTANTS
  InitStates <- MInit
  Step <- MStep
  Allow <- MAllow
SPECIFICATION TraceSpec
CHECK_DEADLOCK FALSE
