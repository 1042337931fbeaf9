SPECIFICATION Spec
CONSTANTS
  Layer = "xml"
  Max = 3
  Rich = 0
INVARIANTS Fits Open Emit
CHECK_DEADLOCK FALSE
