SPECIFICATION Spec
INVARIANT Inv
PROPERTIES Kept Waits
CHECK_DEADLOCK FALSE
CONSTANTS
  D = 5
  T = 4
