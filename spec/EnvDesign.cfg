SPECIFICATION Spec
CONSTANTS MaxN = 7 Emit = FALSE
INVARIANTS Decided Interval Nested Centre Mirror
CHECK_DEADLOCK FALSE
