CONSTANTS
  N = 8
  L = 3
  Chunk = 2
  Export = FALSE
SPECIFICATION Spec
INVARIANTS Right Lazy Bound Ends
CHECK_DEADLOCK FALSE
