CONSTANTS
  Lazy = FALSE
  Export = FALSE
  Big = FALSE
  Programs <- NestPrograms
SPECIFICATION Spec
VIEW View
INVARIANTS Tiling Prefix
CHECK_DEADLOCK FALSE
