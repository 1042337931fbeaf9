SPECIFICATION Spec
CONSTANTS Part = "xml"
 MaxKids = 3
INVARIANTS Survives Places Sound Needs Emit
CHECK_DEADLOCK FALSE
