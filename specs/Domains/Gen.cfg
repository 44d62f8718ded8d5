SPECIFICATION MCSpec
CONSTANTS MaxN = 12
          MaxG = 5
          MaxO = 3
          Depth = 3
          Big = FALSE
INVARIANTS Emit
CHECK_DEADLOCK FALSE
