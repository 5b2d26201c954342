SPECIFICATION Spec
CONSTANTS MaxOps = 2 Restore = TRUE Emit = FALSE
INVARIANTS Intact FiguresCounted NeverUnasked
CHECK_DEADLOCK FALSE
