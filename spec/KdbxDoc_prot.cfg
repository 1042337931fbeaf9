SPECIFICATION Spec
CONSTANTS
  Focus = {"KeePassFile", "Root", "Meta", "MemoryProtection", "Binaries", "CustomData", "Item", "CustomIcons", "Icon", "Group", "Times", "Entry", "AutoType", "Association", "String", "Binary", "History"}
  MaxKids = 2
  Kinds = "protected"
  Random = FALSE
  MaxSteps = 0
INVARIANTS Balanced HasRoot Stream Parents Emit
CHECK_DEADLOCK FALSE
