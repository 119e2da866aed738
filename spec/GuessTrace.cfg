CONSTANTS
  InitStates <- GInit
  Step <- GStep
  Allow <- GAllow
SPECIFICATION TraceSpec
CHECK_DEADLOCK FALSE
