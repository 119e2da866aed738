CONSTANTS
  Lazy = FALSE
  Export = FALSE
  Big = FALSE
SPECIFICATION Spec
VIEW View
INVARIANTS Tiling
CHECK_DEADLOCK FALSE
