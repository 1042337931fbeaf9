SPECIFICATION Spec
CONSTANTS
  Layer = "byte"
  Max = 9000
  Rich = 0
INVARIANTS Fits Open Emit
CHECK_DEADLOCK FALSE
