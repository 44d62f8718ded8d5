SPECIFICATION Spec
CONSTANTS Depth = 12
INVARIANTS Emit
CHECK_DEADLOCK FALSE
