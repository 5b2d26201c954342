SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Kinds = {"pmh"}
  MaxN = 5
  MaxF = 6
  Vals <- V2
  Emit = FALSE
INVARIANTS ReadsInside SingleWriter Refines Hermitian TimeMarginal ReflectWV Causal
PROPERTY Terminates
