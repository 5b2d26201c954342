SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Kinds = {"ppage"}
  MaxN = 4
  MaxF = 4
  Vals <- V3
  Emit = FALSE
INVARIANTS ReadsInside SingleWriter Refines Hermitian TimeMarginal ReflectWV Causal
PROPERTY Terminates
