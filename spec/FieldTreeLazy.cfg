CONSTANTS
  Lazy = TRUE
  Export = FALSE
  Big = FALSE
SPECIFICATION Spec
VIEW View
INVARIANTS NeverAhead
PROPERTIES Confluent
CHECK_DEADLOCK FALSE
