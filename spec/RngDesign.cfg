SPECIFICATION Spec
CONSTANTS Depth = 4 Emit = FALSE
INVARIANTS Reproducible Fresh
CHECK_DEADLOCK FALSE
