SPECIFICATION Spec
CONSTANT Deep = TRUE
INVARIANTS RoundTrip Exact Emit
CHECK_DEADLOCK FALSE
