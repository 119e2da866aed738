CONSTANTS
  MaxLen = 3
  MaxAd = 3
SPECIFICATION Spec
INVARIANTS NoControl InQuotes Readable Distinct Marked Outermost
CHECK_DEADLOCK FALSE
