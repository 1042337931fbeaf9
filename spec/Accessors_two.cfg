SPECIFICATION Spec
CONSTANTS
  MaxOps = 2
  Values = {1, 2}
  Random = FALSE
  Starts = {"absent", "plain", "protected", "invalid"}
  Full = FALSE
INVARIANTS ReadBack OnlyOwn Identity PasswordProtected Emit
CHECK_DEADLOCK FALSE
