CONSTANTS
  D = 4
  Export = FALSE
SPECIFICATION Spec
VIEW View
INVARIANTS UniqueNames_ Conserved Output
PROPERTIES Refusal
CHECK_DEADLOCK FALSE
