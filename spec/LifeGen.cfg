SPECIFICATION Spec
CONSTANTS NObj = 2 MaxOps = 4 Broken = "no" Emit = TRUE
CHECK_DEADLOCK FALSE
