SPECIFICATION Spec
CONSTANTS R = 2 C = 2 A = {0, 1, 4, 9} Emit = TRUE
CHECK_DEADLOCK FALSE
