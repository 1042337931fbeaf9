SPECIFICATION Spec
CONSTANTS
  Family = "free"
  Sizes <- SizesDef
  Rest = 5
  Near <- NearDef
  Far <- FarDef
INVARIANTS InOrder Complete NoPartial Cut Rule OnlyFaults Emit
PROPERTY Ends
CHECK_DEADLOCK FALSE
