SPECIFICATION MCSpec
CONSTANTS Depth = 5
          Big = FALSE
INVARIANT Emit
