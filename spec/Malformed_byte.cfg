SPECIFICATION Spec
CONSTANTS
  Layer = "byte"
  Max = 1500
  Rich = 0
INVARIANTS Fits Open Emit
CHECK_DEADLOCK FALSE
