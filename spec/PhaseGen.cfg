SPECIFICATION Spec
CONSTANTS MaxN = 5 R = 1 Emit = TRUE
CHECK_DEADLOCK FALSE
