SPECIFICATION Spec
CONSTANTS Family = "near"
 MaxOps = 3
INVARIANTS SavedWith SameOpens Emit
CHECK_DEADLOCK FALSE
