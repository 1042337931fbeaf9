SPECIFICATION Spec
CONSTANTS
  Letters = {"a", "A", "b", "B", "s", "S", "z", "o"}
  MaxText = 3
  MaxQuery = 3
  MaxStrings = 1
INVARIANTS CaseBlind EmptyQuery Monotone Protected Emit
CHECK_DEADLOCK FALSE
