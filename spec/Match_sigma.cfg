SPECIFICATION Spec
CONSTANTS
  Letters = {"s", "S", "z", "a"}
  MaxText = 3
  MaxQuery = 2
  MaxStrings = 1
INVARIANTS CaseBlind EmptyQuery Monotone Protected Emit
CHECK_DEADLOCK FALSE
