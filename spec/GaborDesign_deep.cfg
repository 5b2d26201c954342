SPECIFICATION Spec
CONSTANTS Ns = {6, 8} A = {0, 1, 3} Supp = 4 Emit = FALSE
INVARIANTS Walnut Hermitian Commutes Diagonal
CHECK_DEADLOCK FALSE
