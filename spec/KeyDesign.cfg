SPECIFICATION Spec
CONSTANTS MaxN = 7 A = {1, 2} Emit = FALSE
INVARIANTS Held OneSymbol NoWaste
PROPERTY Finishes
CHECK_DEADLOCK FALSE
