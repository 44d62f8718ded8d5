SPECIFICATION Spec
CONSTANTS
  Depth = 5
  Random = FALSE
INVARIANTS ExactlyOnce Addressed
CHECK_DEADLOCK FALSE
