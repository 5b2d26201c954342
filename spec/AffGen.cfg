SPECIFICATION Spec
CONSTANTS N = 6 V = 3 A = {0, 1, 3} GenLen = 4 Emit = TRUE
CHECK_DEADLOCK FALSE
