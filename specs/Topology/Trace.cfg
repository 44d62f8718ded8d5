SPECIFICATION TSpec
INVARIANTS Faithful Compact NoneLost SameMesh
