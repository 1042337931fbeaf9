SPECIFICATION Spec
CONSTANTS
  Layer = "blocks"
  Max = 2
  Rich = 0
INVARIANTS Fits Open Emit
PROPERTY Answers
CHECK_DEADLOCK FALSE
