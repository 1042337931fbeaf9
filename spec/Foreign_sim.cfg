SPECIFICATION FSpec
CONSTANTS MaxSets = 12
          Bases = {"plain", "dense", "twins"}
          Random = TRUE
          MaxCycles = 1
          Heavy = FALSE
          MaxEdits = 3
INVARIANTS SameContent FAllRepresentable FEmit
CHECK_DEADLOCK FALSE
