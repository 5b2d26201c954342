SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxN = 7
  MaxF = 9
  Vals <- V1
  Emit = TRUE
INVARIANTS DenPositive TotalIsEnergy HermitianCol CauchySchwarz WindowScale
