CONSTANTS
  InitStates <- EInit
  Step <- EStep
  Allow <- EAllow
SPECIFICATION TraceSpec
CHECK_DEADLOCK FALSE
