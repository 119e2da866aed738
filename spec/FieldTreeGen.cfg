CONSTANTS
  Lazy = TRUE
  Export = TRUE
  Big = FALSE
SPECIFICATION Spec
VIEW View
INVARIANTS NeverAhead
PROPERTIES Confluent
CHECK_DEADLOCK FALSE
