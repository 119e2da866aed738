CONSTANTS
  InitStates <- DInit
  Step <- DStep
  Allow <- DAllow
SPECIFICATION TraceSpec
INVARIANT Inv
CHECK_DEADLOCK FALSE
