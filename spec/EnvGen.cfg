SPECIFICATION Spec
CONSTANTS MaxN = 6 Emit = TRUE
CHECK_DEADLOCK FALSE
