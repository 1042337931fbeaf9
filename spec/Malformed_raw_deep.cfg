SPECIFICATION Spec
CONSTANTS
  Layer = "raw"
  Max = 3000
  Rich = 0
INVARIANTS Fits Open Emit
CHECK_DEADLOCK FALSE
