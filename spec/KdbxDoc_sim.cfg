SPECIFICATION Spec
CONSTANTS
  Focus = {"KeePassFile", "Root", "Meta", "MemoryProtection", "Binaries", "CustomData", "Item", "CustomIcons", "Icon", "Group", "Times", "Entry", "AutoType", "Association", "String", "Binary", "History"}
  MaxKids = 1
  Kinds = "all"
  Random = TRUE
  MaxSteps = 60
INVARIANTS Balanced HasRoot Stream Parents Emit
CHECK_DEADLOCK FALSE
