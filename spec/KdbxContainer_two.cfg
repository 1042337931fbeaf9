SPECIFICATION Spec
CONSTANTS MaxDev = 2
          Orders = {"up", "down"}
          Comments = {"c5"}
          RoundsSet = {1}
          BlockCounts = {2}
          Minors = {1}
          Bulks = {0}
          Sizes = {"small"}
          Random = FALSE
INVARIANTS OpensComplete CleanOpens Named Emit
CHECK_DEADLOCK FALSE
