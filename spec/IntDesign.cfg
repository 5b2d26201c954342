SPECIFICATION Spec
CONSTANTS R = 3 C = 3 A = {0, 1, 2} Emit = FALSE
INVARIANTS SumsUp Constant Affine
PROPERTY Finishes
CHECK_DEADLOCK FALSE
