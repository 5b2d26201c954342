SPECIFICATION Spec
CONSTANTS Ns = {2, 4} A = {0, 1, 2} Supp = 4 Emit = FALSE
INVARIANTS Walnut Hermitian Commutes Diagonal
PROPERTY Finishes
CHECK_DEADLOCK FALSE
