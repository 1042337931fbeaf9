SPECIFICATION Spec
CONSTANTS
  Layer = "value"
  Max = 1
  Rich = 0
INVARIANTS Fits Open Emit
CHECK_DEADLOCK FALSE
