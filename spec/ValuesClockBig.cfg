CONSTANTS
  MODE = "clock"
  FromYear = 1582
  ToYear = 1990
  Ticks = 15000
SPECIFICATION Spec
INVARIANTS Right Possible Whole
CHECK_DEADLOCK FALSE
