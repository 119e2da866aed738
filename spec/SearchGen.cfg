CONSTANTS
  N = 5
  L = 3
  Chunk = 2
  Export = TRUE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
