CONSTANTS
  N = 7
  Alpha = {0, 1, 10}
SPECIFICATION Spec
INVARIANTS Right Sane
CHECK_DEADLOCK FALSE
