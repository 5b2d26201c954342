SPECIFICATION Spec
CONSTANTS MaxN = 6 R = 2 Emit = FALSE
INVARIANTS Reference ClosedForm Quadratic Cubic Simpson
CHECK_DEADLOCK FALSE
