INIT Init
NEXT Stop
CONSTANTS N = 5 Over = 2 Export = TRUE
CHECK_DEADLOCK FALSE
