SPECIFICATION Spec
CONSTANTS Depth = 3 Emit = TRUE
CHECK_DEADLOCK FALSE
