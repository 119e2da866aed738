CONSTANTS
  InitStates <- XInit
  Step <- XStep
  Allow <- XAllow
SPECIFICATION TraceSpec
CHECK_DEADLOCK FALSE
