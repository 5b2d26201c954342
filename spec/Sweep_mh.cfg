SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Kinds = {"mh"}
  MaxN = 4
  MaxF = 7
  Vals <- V3
  Emit = FALSE
INVARIANTS ReadsInside SingleWriter Refines Hermitian TimeMarginal ReflectWV Causal
PROPERTY Terminates
