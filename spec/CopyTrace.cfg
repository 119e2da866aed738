CONSTANTS
  InitStates <- CInit
  Step <- CStep
  Allow <- CAllow
SPECIFICATION TraceSpec
CHECK_DEADLOCK FALSE
