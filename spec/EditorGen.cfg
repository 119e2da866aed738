CONSTANTS
  D = 2
  Export = TRUE
SPECIFICATION Spec

INVARIANTS UniqueNames_ Conserved Output
PROPERTIES Refusal
CHECK_DEADLOCK FALSE
