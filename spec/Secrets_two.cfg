SPECIFICATION Spec
CONSTANTS
  Family = "two"
  MaxOps = 30
INVARIANTS FileHidesAll DebugHides XmlHides ErrorHides OwnerSeesAll OldKeyIsUseless Emit
CHECK_DEADLOCK FALSE
