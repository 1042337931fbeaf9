SPECIFICATION Spec
CONSTANTS
  Focus = {"String", "Binary", "Item", "Icon", "Association", "AutoType", "MemoryProtection", "History", "CustomData", "CustomIcons", "Binaries", "Times"}
  MaxKids = 3
  Kinds = "all"
  Random = FALSE
  MaxSteps = 0
INVARIANTS Balanced HasRoot Stream Parents Emit
CHECK_DEADLOCK FALSE
