SPECIFICATION Spec
CONSTANTS
  Depth = 6
  Random = FALSE
INVARIANTS ExactlyOnce Addressed
CHECK_DEADLOCK FALSE
