SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxN = 5
  MaxF = 5
  MaxG = 2
  Vals <- V1
  Emit = TRUE
INVARIANTS OnePoint DenPos Bounded NbrShift SelfMember
