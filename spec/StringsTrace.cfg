CONSTANTS
  InitStates <- TInit
  Step <- TStep
  Allow <- TAllow
SPECIFICATION TraceSpec
CHECK_DEADLOCK FALSE
