SPECIFICATION Spec
CONSTANTS
  Letters = {"a", "A", "b", "o"}
  MaxText = 3
  MaxQuery = 2
  MaxStrings = 1
INVARIANTS CaseBlind EmptyQuery Monotone Protected Emit
CHECK_DEADLOCK FALSE
