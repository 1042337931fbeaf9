SPECIFICATION Spec
CONSTANTS
  Layer = "xml"
  Max = 2
  Rich = 1
INVARIANTS Fits Open Emit
CHECK_DEADLOCK FALSE
