SPECIFICATION Spec
CONSTANTS V = 4 A = {0, 1, 2} GenLen = 4 Emit = FALSE
INVARIANTS Origin Peak Symmetric PhaseFree
CHECK_DEADLOCK FALSE
