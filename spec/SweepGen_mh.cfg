SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Kinds = {"mh"}
  MaxN = 8
  MaxF = 17
  Vals <- V1
  Emit = TRUE
INVARIANTS ReadsInside SingleWriter Refines
