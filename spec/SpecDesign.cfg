SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxN = 4
  MaxF = 6
  Vals <- V3
  Emit = FALSE
INVARIANTS DenPositive TotalIsEnergy HermitianCol CauchySchwarz WindowScale
