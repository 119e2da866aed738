CONSTANTS
  InitStates <- SbInit
  Step <- SbStep
  Allow <- SbAllow
SPECIFICATION TraceSpec
CHECK_DEADLOCK FALSE
