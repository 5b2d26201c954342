SPECIFICATION Spec
CONSTANTS N = 2 NLaws = 2 SkipUnd = TRUE Emit = TRUE
CHECK_DEADLOCK FALSE
