SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Kinds = {"pmh"}
  MaxN = 6
  MaxF = 7
  Vals <- V1
  Emit = TRUE
INVARIANTS ReadsInside SingleWriter Refines
