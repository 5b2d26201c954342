SPECIFICATION Spec
CONSTANTS MaxN = 4 Emit = TRUE
A <- Alphabet
CHECK_DEADLOCK FALSE
