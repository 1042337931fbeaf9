SPECIFICATION Spec
CONSTANTS
  Focus = {"Group"}
  MaxKids = 4
  Kinds = "parents"
  Random = FALSE
  MaxSteps = 0
INVARIANTS Balanced HasRoot Stream Parents Emit
CHECK_DEADLOCK FALSE
