SPECIFICATION Spec
CONSTANTS Part = "made"
 MaxKids = 3
INVARIANTS Survives Places Sound Needs Emit
CHECK_DEADLOCK FALSE
