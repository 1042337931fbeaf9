SPECIFICATION Spec
CONSTANTS
  MaxOps = 3
  Values = {1}
  Random = FALSE
  Starts = {"absent"}
  Full = TRUE
INVARIANTS ReadBack OnlyOwn Identity PasswordProtected Emit
CHECK_DEADLOCK FALSE
