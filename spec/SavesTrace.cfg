SPECIFICATION TSpec
CONSTANT MaxOps = 24
INVARIANT Report
CHECK_DEADLOCK FALSE
