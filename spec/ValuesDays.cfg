CONSTANTS
  MODE = "days"
  FromYear = 1582
  ToYear = 1990
  Ticks = 20000
SPECIFICATION Spec
INVARIANTS Right Possible Whole
CHECK_DEADLOCK FALSE
