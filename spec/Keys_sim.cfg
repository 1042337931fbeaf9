SPECIFICATION Spec
CONSTANTS Family = "histories"
 MaxOps = 16
INVARIANTS SavedWith SameOpens Emit
CHECK_DEADLOCK FALSE
