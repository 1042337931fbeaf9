SPECIFICATION Spec
CONSTANTS
  Family = "changes"
  MaxOps = 2
INVARIANTS Detected Emit
CHECK_DEADLOCK FALSE
