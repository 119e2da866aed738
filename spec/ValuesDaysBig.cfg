CONSTANTS
  MODE = "days"
  FromYear = 1
  ToYear = 10000
  Ticks = 20000
SPECIFICATION Spec
INVARIANTS Right Possible Whole
CHECK_DEADLOCK FALSE
