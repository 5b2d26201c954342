SPECIFICATION Spec
CONSTANTS M = 8 MaxN = 5 Emit = FALSE
INVARIANTS Range Mean Steady
CHECK_DEADLOCK FALSE
