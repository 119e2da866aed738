CONSTANTS
  Lazy = FALSE
  Export = FALSE
  Big = FALSE
  Programs <- SeekPrograms
  RootSkb <- Yes
SPECIFICATION Spec
VIEW View
INVARIANTS Tiling Prefix
CHECK_DEADLOCK FALSE
