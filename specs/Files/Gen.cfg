SPECIFICATION Spec
CONSTANTS Depth = 10
          Both = TRUE
INVARIANT Emit
