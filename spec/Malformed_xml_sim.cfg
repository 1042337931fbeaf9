SPECIFICATION Walk
CONSTANTS
  Layer = "xml"
  Max = 40
  Rich = 0
INVARIANTS Fits Open Emit
CHECK_DEADLOCK FALSE
