SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Kinds = {"mh"}
  MaxN = 5
  MaxF = 11
  Vals <- V2
  Emit = FALSE
INVARIANTS ReadsInside SingleWriter Refines Hermitian TimeMarginal ReflectWV Causal
PROPERTY Terminates
