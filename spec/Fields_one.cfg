SPECIFICATION Spec
CONSTANTS MaxSets = 1
          Bases = {"plain", "dense", "twins", "empty"}
          Random = FALSE
          MaxCycles = 1
          Heavy = FALSE
INVARIANTS Faithful Total Emit
CHECK_DEADLOCK FALSE
