SPECIFICATION Spec
CONSTANT MaxOps = 24
INVARIANTS AllFresh Emit
CHECK_DEADLOCK FALSE
