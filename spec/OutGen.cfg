CONSTANTS
  Depth = 2
  Export = TRUE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
