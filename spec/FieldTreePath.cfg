CONSTANTS
  Lazy = FALSE
  Export = FALSE
  Big = FALSE
SPECIFICATION Spec
VIEW View
INVARIANTS Leads Arrays
CHECK_DEADLOCK FALSE
