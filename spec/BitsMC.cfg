CONSTANTS
  MaxP = 23
  MaxN = 96
SPECIFICATION Spec
INVARIANTS Assembles Partition
CHECK_DEADLOCK FALSE
