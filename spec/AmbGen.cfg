SPECIFICATION Spec
CONSTANTS MaxN = 7 Vals <- V Emit = TRUE
CHECK_DEADLOCK FALSE
