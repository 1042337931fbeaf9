SPECIFICATION Spec
CONSTANTS Family = "pairs"
 MaxOps = 3
INVARIANTS SavedWith SameOpens Emit
CHECK_DEADLOCK FALSE
