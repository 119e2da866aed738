SPECIFICATION Spec
INVARIANT Inv
PROPERTIES Kept Waits
CHECK_DEADLOCK FALSE
CONSTANTS
  D = 4
  T = 3
