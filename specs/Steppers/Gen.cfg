SPECIFICATION MCSpec
CONSTANTS Sim = TRUE
          Depth = 7
INVARIANTS Emit BoundaryValue
CHECK_DEADLOCK FALSE
