SPECIFICATION Spec
CONSTANTS M = 4 MaxN = 4 Emit = TRUE
CHECK_DEADLOCK FALSE
