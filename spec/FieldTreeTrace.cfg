CONSTANTS
  InitStates <- FInit
  Step <- FStep
  Allow <- FAllow
SPECIFICATION TraceSpec
CHECK_DEADLOCK FALSE
