SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Kinds = {"page"}
  MaxN = 4
  MaxF = 4
  Vals <- V3
  Emit = FALSE
INVARIANTS ReadsInside SingleWriter Refines Hermitian TimeMarginal ReflectWV Causal Unwindowed
PROPERTY Terminates
