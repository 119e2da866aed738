CONSTANTS
  N = 7
  B = 2
  W = 2
  MaxLen = 5
  Export = TRUE
SPECIFICATION Spec
VIEW View
INVARIANTS SizeTruth NoHole Window
CHECK_DEADLOCK FALSE
