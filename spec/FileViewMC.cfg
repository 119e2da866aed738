CONSTANTS
  N = 6
  Range = 9
  Export = FALSE
SPECIFICATION Spec
VIEW View
INVARIANT Refines
PROPERTY Answers
CHECK_DEADLOCK FALSE
