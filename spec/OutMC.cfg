CONSTANTS
  Depth = 3
  Export = FALSE
SPECIFICATION Spec
INVARIANTS Refines ReadBack IntRoundTrip
CHECK_DEADLOCK FALSE
