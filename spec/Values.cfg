SPECIFICATION Spec
CONSTANT Deep = FALSE
INVARIANTS RoundTrip Exact Emit
CHECK_DEADLOCK FALSE
