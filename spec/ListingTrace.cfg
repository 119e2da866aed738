CONSTANTS
  InitStates <- LiInit
  Step <- LiStep
  Allow <- LiAllow
SPECIFICATION TraceSpec
CHECK_DEADLOCK FALSE
