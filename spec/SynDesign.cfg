SPECIFICATION Spec
CONSTANTS MaxN = 4 NRows = 3 Emit = FALSE
INVARIANTS OrderFree UsedOnce PeakInside
PROPERTY Finishes
CHECK_DEADLOCK FALSE
