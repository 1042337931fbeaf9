SPECIFICATION Spec
CONSTANTS MaxDev = 1
          Orders = {"up", "down", "keepass", "odd", "even", "mid"}
          Comments = {"none", "empty", "c5", "big"}
          RoundsSet = {0, 1, 2, 1000}
          BlockCounts = {1, 2, 3, 50}
          Minors = {0, 1}
          Bulks = {0, 254, 70000}
          Sizes = {"small", "big"}
          Random = FALSE
INVARIANTS OpensComplete CleanOpens Named Emit
CHECK_DEADLOCK FALSE
