SPECIFICATION Spec
CONSTANTS MaxDev = 3
          Orders = {"up"}
          Comments = {"none", "empty", "c5", "big"}
          RoundsSet = {0, 1, 2, 100}
          BlockCounts = {1, 2, 3, 7, 20}
          Minors = {0, 1}
          Bulks = {0, 1, 255}
          Sizes = {"small"}
          Random = TRUE
INVARIANTS OpensComplete CleanOpens Named Emit
CHECK_DEADLOCK FALSE
