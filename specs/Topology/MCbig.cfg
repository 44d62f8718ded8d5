SPECIFICATION MCSpec
CONSTANTS Depth = 4
          Big = TRUE
VIEW Hidden
INVARIANTS Faithful Compact NoneLost SameMesh
CHECK_DEADLOCK FALSE
