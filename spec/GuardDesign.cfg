SPECIFICATION Spec
CONSTANTS Shadow = FALSE Emit = FALSE
INVARIANTS NeverUnchecked NeverOverRefused
PROPERTY Ends
CHECK_DEADLOCK FALSE
