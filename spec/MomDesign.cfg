SPECIFICATION Spec
CONSTANTS MaxN = 5 Emit = FALSE
A <- Alphabet
INVARIANTS NonNegative InRange OriginFree
CHECK_DEADLOCK FALSE
