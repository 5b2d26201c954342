SPECIFICATION Spec
CONSTANTS MaxN = 5 Vals <- V Emit = FALSE
INVARIANTS InRange Refines Energy Conjugate
CHECK_DEADLOCK FALSE
