SPECIFICATION Spec
CONSTANTS MaxN = 6 MaxF = 24 Emit = FALSE
INVARIANTS InRange Residue Distinct SignOrder Steps
PROPERTY Complete
CHECK_DEADLOCK FALSE
