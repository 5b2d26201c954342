SPECIFICATION Spec
CONSTANTS MaxN = 5 MaxF = 7 Emit = TRUE
CHECK_DEADLOCK FALSE
