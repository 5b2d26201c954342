SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxN = 4
  MaxF = 4
  MaxG = 2
  Vals <- V2
  Emit = FALSE
INVARIANTS OnePoint DenPos Bounded NbrShift SelfMember
