SPECIFICATION Spec
CONSTANTS R = 2 C = 2 A = {0, 1, 3} Emit = TRUE
CHECK_DEADLOCK FALSE
