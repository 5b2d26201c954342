SPECIFICATION Spec
CONSTANTS MaxN = 4 Fs = {4, 8} Vals <- V As <- A Emit = FALSE
INVARIANT Covariant
CHECK_DEADLOCK FALSE
