SPECIFICATION Spec
CONSTANTS N = 6 V = 3 A = {0, 1, 3} GenLen = 5 Emit = FALSE
INVARIANTS Sign Moves Impulse Scale
CHECK_DEADLOCK FALSE
