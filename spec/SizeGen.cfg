CONSTANTS
  N = 5
  B = 2
  Off = 2
  MaxCl = 2
  Export = TRUE
SPECIFICATION Spec
VIEW View
INVARIANTS Truthful Observers
PROPERTIES AnswersTrue Stable
CHECK_DEADLOCK FALSE
