SPECIFICATION Spec
CONSTANTS
  Family = "points"
  Sizes <- SizesDef
  Rest = 5
  Near <- NearDef
  Far <- FarDef
INVARIANTS InOrder Complete NoPartial Cut Rule OnlyFaults Emit
CHECK_DEADLOCK FALSE
