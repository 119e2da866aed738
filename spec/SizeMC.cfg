CONSTANTS
  N = 7
  B = 2
  Off = 3
  MaxCl = 3
  Export = FALSE
SPECIFICATION Spec
VIEW View
INVARIANTS Truthful Observers
PROPERTIES AnswersTrue Stable
CHECK_DEADLOCK FALSE
