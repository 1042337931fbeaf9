SPECIFICATION Spec
CONSTANTS
  Family = "bytes"
  MaxOps = 1300
INVARIANTS Detected Emit
CHECK_DEADLOCK FALSE
