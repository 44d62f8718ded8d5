SPECIFICATION MCSpec
CONSTANTS Sim = TRUE
          Depth = 22
INVARIANTS Emit Transferred
CHECK_DEADLOCK FALSE
