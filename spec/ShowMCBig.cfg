CONSTANTS
  MaxLen = 4
  MaxAd = 5
SPECIFICATION Spec
INVARIANTS NoControl InQuotes Readable Distinct Marked Outermost
CHECK_DEADLOCK FALSE
