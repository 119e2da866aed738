CONSTANTS
  N = 4
  Range = 6
  Export = TRUE
SPECIFICATION Spec
VIEW View
INVARIANT Refines
PROPERTY Answers
CHECK_DEADLOCK FALSE
