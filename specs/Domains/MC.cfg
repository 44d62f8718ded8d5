SPECIFICATION MCSpec
CONSTANTS MaxN = 9
          MaxG = 5
          MaxO = 2
          Depth = 3
          Big = FALSE
VIEW Hidden
INVARIANTS SplitOK NumberedOK OrientOK SubdOK
CHECK_DEADLOCK FALSE
