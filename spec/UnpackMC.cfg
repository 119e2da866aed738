SPECIFICATION Spec
CONSTANTS Types = {0, 1, 2} LzxTypes = {1, 2, 3} Most = 2 Sels = {0, 3} Levels = {15, 17} Part = 3 Export = FALSE
INVARIANTS Beginning Sound Whole NotEarly Jumps
CHECK_DEADLOCK FALSE
