SPECIFICATION Spec
CONSTANTS
  Focus = {"String", "Binary", "Binaries", "Entry", "History", "Item", "Icon", "Group", "Meta", "Association"}
  MaxKids = 3
  Kinds = "protected"
  Random = FALSE
  MaxSteps = 0
INVARIANTS Balanced HasRoot Stream Parents Emit
CHECK_DEADLOCK FALSE
