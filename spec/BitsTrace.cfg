CONSTANTS
  InitStates <- BInit
  Step <- BStep
  Allow <- BAllow
SPECIFICATION TraceSpec
CHECK_DEADLOCK FALSE
