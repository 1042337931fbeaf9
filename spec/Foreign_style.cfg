SPECIFICATION FSpec
CONSTANTS MaxSets = 0
          Bases = {"plain", "dense", "twins", "empty"}
          Random = FALSE
          MaxCycles = 1
          Heavy = FALSE
          MaxEdits = 0
INVARIANTS SameContent FAllRepresentable FEmit
CHECK_DEADLOCK FALSE
