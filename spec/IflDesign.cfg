SPECIFICATION Spec
CONSTANTS N = 3 NLaws = 2 SkipUnd = TRUE Emit = FALSE
INVARIANTS ShownOnce Complete Covered Tight
CHECK_DEADLOCK FALSE
