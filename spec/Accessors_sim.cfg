SPECIFICATION Spec
CONSTANTS
  MaxOps = 40
  Values = {1, 2, 3, 4, 5, 6}
  Random = TRUE
  Starts = {"absent", "plain", "protected", "invalid"}
  Full = TRUE
INVARIANTS ReadBack OnlyOwn Identity PasswordProtected Emit
CHECK_DEADLOCK FALSE
