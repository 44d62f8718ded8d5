SPECIFICATION MCSpec
CONSTANTS Depth = 3
          Big = FALSE
VIEW Hidden
INVARIANTS Faithful Compact NoneLost SameMesh
CHECK_DEADLOCK FALSE
