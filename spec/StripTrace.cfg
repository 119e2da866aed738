CONSTANTS
  InitStates <- PInit
  Step <- PStep
  Allow <- PAllow
SPECIFICATION TraceSpec
CHECK_DEADLOCK FALSE
