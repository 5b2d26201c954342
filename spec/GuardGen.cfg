SPECIFICATION Spec
CONSTANTS Shadow = FALSE Emit = TRUE
CHECK_DEADLOCK FALSE
