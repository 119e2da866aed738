CONSTANTS
  InitStates <- SInit
  Step <- SStep
  Allow <- SAllow
SPECIFICATION TraceSpec
INVARIANT CacheInv
CHECK_DEADLOCK FALSE
