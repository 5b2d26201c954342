SPECIFICATION Spec
CONSTANTS R = 3 C = 2 A = {0, 1} Emit = FALSE
INVARIANTS Conserved FixedPoints Uniform
PROPERTY Finishes
CHECK_DEADLOCK FALSE
