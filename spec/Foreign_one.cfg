SPECIFICATION FSpec
CONSTANTS MaxSets = 1
          Bases = {"plain"}
          Random = FALSE
          MaxCycles = 1
          Heavy = FALSE
          MaxEdits = 0
INVARIANTS SameContent FAllRepresentable FEmit
CHECK_DEADLOCK FALSE
