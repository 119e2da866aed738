CONSTANTS
  InitStates <- OInit
  Step <- OStep
  Allow <- OAllow
SPECIFICATION TraceSpec
CHECK_DEADLOCK FALSE
