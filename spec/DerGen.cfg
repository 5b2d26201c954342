SPECIFICATION Spec
CONSTANTS MaxL = 4 A = {0, 1, 3} Emit = TRUE
CHECK_DEADLOCK FALSE
