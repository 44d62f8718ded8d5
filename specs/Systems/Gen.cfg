SPECIFICATION Spec
CONSTANTS
  Depth = 14
  Random = TRUE
INVARIANTS Emit
CHECK_DEADLOCK FALSE
