SPECIFICATION Spec
CONSTANTS Ns = {4, 6, 8, 9, 12, 16, 18, 20, 24, 30, 36, 40, 48} A = {0} Supp = 1 Emit = TRUE
CHECK_DEADLOCK FALSE
