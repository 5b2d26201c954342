SPECIFICATION Spec
CONSTANTS MaxL = 5 A = {0, 1, 2, 5} Emit = FALSE
INVARIANTS EndsVanish Interior Mirror Line
PROPERTY Finishes
CHECK_DEADLOCK FALSE
