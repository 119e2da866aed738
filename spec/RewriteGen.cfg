CONSTANTS
  D = 3
  Export = TRUE
SPECIFICATION Spec
VIEW View
INVARIANTS Well Again
PROPERTIES Kept
CHECK_DEADLOCK FALSE
