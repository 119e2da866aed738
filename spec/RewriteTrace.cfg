CONSTANTS
  InitStates <- RInit
  Step <- RStep
  Allow <- RAllow
SPECIFICATION TraceSpec
CHECK_DEADLOCK FALSE
