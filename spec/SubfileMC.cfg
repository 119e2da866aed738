SPECIFICATION Spec
CONSTANTS N = 6 Over = 2 Export = FALSE
INVARIANTS Sound Complete Once
CHECK_DEADLOCK FALSE
