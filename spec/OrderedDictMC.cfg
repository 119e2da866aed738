CONSTANTS
  Keys = {1, 2, 3, 4}
  Vals = {0, 1}
  MaxLen = 4
  Export = FALSE
SPECIFICATION Spec
VIEW View
INVARIANT KeysUnique
PROPERTY Steps
CHECK_DEADLOCK FALSE
