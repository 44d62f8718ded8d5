SPECIFICATION MCSpec
CONSTANTS Depth = 2
          Rich = FALSE
INVARIANT Emit
