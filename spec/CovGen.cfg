SPECIFICATION Spec
CONSTANTS MaxN = 1 Fs = {4} Vals <- V As <- A Emit = TRUE
CHECK_DEADLOCK FALSE
