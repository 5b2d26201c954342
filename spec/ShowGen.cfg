SPECIFICATION Spec
CONSTANTS MaxOps = 2 Restore = TRUE Emit = TRUE
CHECK_DEADLOCK FALSE
