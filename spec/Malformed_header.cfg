SPECIFICATION Spec
CONSTANTS
  Layer = "header"
  Max = 1
  Rich = 0
INVARIANTS Fits Open Emit
CHECK_DEADLOCK FALSE
