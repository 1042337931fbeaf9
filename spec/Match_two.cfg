SPECIFICATION Spec
CONSTANTS
  Letters = {"a", "A", "b"}
  MaxText = 2
  MaxQuery = 2
  MaxStrings = 2
INVARIANTS CaseBlind EmptyQuery Monotone Protected Emit
CHECK_DEADLOCK FALSE
