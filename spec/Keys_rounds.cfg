SPECIFICATION Spec
CONSTANTS Family = "rounds"
 MaxOps = 3
INVARIANTS SavedWith SameOpens Emit
CHECK_DEADLOCK FALSE
