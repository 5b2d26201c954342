SPECIFICATION Spec
CONSTANTS MaxN = 5 NRows = 1 Emit = TRUE
CHECK_DEADLOCK FALSE
