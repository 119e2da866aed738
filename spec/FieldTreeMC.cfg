CONSTANTS
  Lazy = FALSE
  Export = FALSE
  Big = TRUE
SPECIFICATION Spec
VIEW View
INVARIANTS Tiling Prefix
CHECK_DEADLOCK FALSE
