CONSTANTS
  InitStates <- VInit
  Step <- VStep
  Allow <- VAllow
SPECIFICATION TraceSpec
CHECK_DEADLOCK FALSE
