SPECIFICATION Spec
CONSTANTS
  Family = "histories"
  MaxOps = 30
INVARIANTS FileHidesAll DebugHides XmlHides ErrorHides OwnerSeesAll OldKeyIsUseless Emit
CHECK_DEADLOCK FALSE
