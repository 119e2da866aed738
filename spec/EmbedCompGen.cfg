CONSTANTS
  Kind = "comp"
  Export = TRUE
  D = 2
SPECIFICATION Spec
VIEW View
INVARIANT Right
CHECK_DEADLOCK FALSE
