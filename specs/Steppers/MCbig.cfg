SPECIFICATION MCSpec
CONSTANTS Sim = FALSE
          Depth = 6
VIEW Hidden
INVARIANTS Quadrature Total BoundaryValue InStep Once Estimates NotSmaller
CHECK_DEADLOCK FALSE
