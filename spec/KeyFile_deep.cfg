SPECIFICATION Spec
CONSTANTS Part = "xml"
 MaxKids = 4
INVARIANTS Survives Places Sound Needs Emit
CHECK_DEADLOCK FALSE
