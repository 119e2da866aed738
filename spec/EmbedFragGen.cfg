CONSTANTS
  Kind = "frag"
  Export = TRUE
  D = 1
SPECIFICATION Spec
VIEW View
INVARIANT Right
CHECK_DEADLOCK FALSE
