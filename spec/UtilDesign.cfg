SPECIFICATION Spec
CONSTANTS MaxN = 150 Emit = FALSE
INVARIANTS Found Stays Least
PROPERTY Finishes
CHECK_DEADLOCK FALSE
