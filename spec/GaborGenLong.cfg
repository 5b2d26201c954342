SPECIFICATION Spec
CONSTANTS Ns = {60, 72, 90, 120, 144} A = {0} Supp = 1 Emit = TRUE
CHECK_DEADLOCK FALSE
