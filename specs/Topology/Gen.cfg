SPECIFICATION MCSpec
CONSTANTS Depth = 2
          Big = FALSE
INVARIANT Emit
CHECK_DEADLOCK FALSE
