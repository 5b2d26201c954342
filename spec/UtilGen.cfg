SPECIFICATION Spec
CONSTANTS MaxN = 400 Emit = TRUE
CHECK_DEADLOCK FALSE
