CONSTANTS
  N = 11
  B = 2
  W = 2
  MaxLen = 6
  Export = FALSE
SPECIFICATION Spec
VIEW View
INVARIANTS SizeTruth NoHole Window
PROPERTIES SizeStable Answers
CHECK_DEADLOCK FALSE
