SPECIFICATION Spec
CONSTANTS Types = {0, 1, 2} LzxTypes = {1, 2, 3} Most = 2 Sels = {0, 1, 2, 3, 4, 5} Levels = {15, 17} Part = 2 Export = FALSE
INVARIANTS Beginning Sound Whole NotEarly Jumps
CHECK_DEADLOCK FALSE
