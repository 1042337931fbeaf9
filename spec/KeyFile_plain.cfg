SPECIFICATION Spec
CONSTANTS Part = "plain"
 MaxKids = 3
INVARIANTS Survives Places Sound Needs Emit
CHECK_DEADLOCK FALSE
