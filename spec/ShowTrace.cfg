CONSTANTS
  InitStates <- ShInit
  Step <- ShStep
  Allow <- ShAllow
SPECIFICATION TraceSpec
CHECK_DEADLOCK FALSE
