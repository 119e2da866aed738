SPECIFICATION Spec
INVARIANTS Inv First
CHECK_DEADLOCK FALSE
CONSTANTS
  N = 4
  K = 3
