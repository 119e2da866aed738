CONSTANTS
  Keys = {1, 2, 3}
  Vals = {0, 1}
  MaxLen = 3
  Export = TRUE
SPECIFICATION Spec
VIEW View
INVARIANT KeysUnique
PROPERTY Steps
CHECK_DEADLOCK FALSE
