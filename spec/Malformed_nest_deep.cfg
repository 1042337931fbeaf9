SPECIFICATION Spec
CONSTANTS
  Layer = "nest"
  Max = 30000
  Rich = 0
INVARIANTS Fits Open Emit
PROPERTY Answers
CHECK_DEADLOCK FALSE
