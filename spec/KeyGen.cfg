SPECIFICATION Spec
CONSTANTS MaxN = 9 A = {1, 2} Emit = TRUE
CHECK_DEADLOCK FALSE
