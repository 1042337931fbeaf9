SPECIFICATION Spec
CONSTANTS MaxSets = 25
          Bases = {"plain", "dense", "twins"}
          Random = TRUE
          MaxCycles = 2
          Heavy = FALSE
INVARIANTS Faithful Total Emit
CHECK_DEADLOCK FALSE
