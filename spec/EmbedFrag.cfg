CONSTANTS
  Kind = "frag"
  Export = FALSE
  D = 100
SPECIFICATION Spec
VIEW View
INVARIANT Right
CHECK_DEADLOCK FALSE
