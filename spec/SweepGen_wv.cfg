SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Kinds = {"wv"}
  MaxN = 8
  MaxF = 17
  Vals <- V1
  Emit = TRUE
INVARIANTS ReadsInside SingleWriter Refines
