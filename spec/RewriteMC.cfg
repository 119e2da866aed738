CONSTANTS
  D = 5
  Export = FALSE
SPECIFICATION Spec
VIEW View
INVARIANTS Well Again
PROPERTIES Kept
CHECK_DEADLOCK FALSE
