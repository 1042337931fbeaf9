SPECIFICATION Spec
CONSTANTS
  Family = "walk"
  MaxOps = 4
INVARIANTS Detected Emit
CHECK_DEADLOCK FALSE
