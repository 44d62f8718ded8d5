SPECIFICATION MCSpec
CONSTANTS MaxN = 40
          MaxG = 12
          MaxO = 6
          Depth = 4
          Big = TRUE
VIEW Hidden
INVARIANTS SplitOK NumberedOK OrientOK SubdOK
CHECK_DEADLOCK FALSE
