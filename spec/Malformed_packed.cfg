SPECIFICATION Spec
CONSTANTS
  Layer = "packed"
  Max = 300
  Rich = 0
INVARIANTS Fits Open Emit
CHECK_DEADLOCK FALSE
