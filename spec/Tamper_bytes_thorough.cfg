SPECIFICATION Spec
CONSTANTS
  Family = "bytes"
  MaxOps = 6000
INVARIANTS Detected Emit
CHECK_DEADLOCK FALSE
