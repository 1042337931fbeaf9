SPECIFICATION Walk
CONSTANTS
  Layer = "xml"
  Max = 12
  Rich = 12
INVARIANTS Fits Open Emit
CHECK_DEADLOCK FALSE
