CONSTANTS
  InitStates <- HiInit
  Step <- HiStep
  Allow <- HiAllow
SPECIFICATION TraceSpec
CHECK_DEADLOCK FALSE
