SPECIFICATION Spec
CONSTANTS
  Family = "one"
  MaxOps = 30
INVARIANTS FileHidesAll DebugHides XmlHides ErrorHides OwnerSeesAll OldKeyIsUseless Emit
CHECK_DEADLOCK FALSE
