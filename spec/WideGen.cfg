SPECIFICATION Spec
CONSTANTS V = 4 A = {0, 1, 2} GenLen = 4 Emit = TRUE
CHECK_DEADLOCK FALSE
