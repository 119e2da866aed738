CONSTANTS
  Lazy = FALSE
  Export = FALSE
  Big = FALSE
SPECIFICATION Spec
VIEW View
INVARIANTS Prefix
CHECK_DEADLOCK FALSE
