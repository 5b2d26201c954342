SPECIFICATION Spec
CONSTANTS NObj = 2 MaxOps = 6 Broken = "no" Emit = FALSE
INVARIANTS CallerKept ResultsKept
CHECK_DEADLOCK FALSE
