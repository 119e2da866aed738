CONSTANTS
  InitStates <- GuInit
  Step <- GuStep
  Allow <- GuAllow
SPECIFICATION TraceSpec
CHECK_DEADLOCK FALSE
