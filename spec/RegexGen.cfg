SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Deep = FALSE
  Export = TRUE
