SPECIFICATION TSpec
CONSTANTS
  Focus = {"Root"}
  MaxKids = 1
  Kinds = "all"
  Random = FALSE
  MaxSteps = 1
INVARIANT Report
CHECK_DEADLOCK FALSE
