SPECIFICATION Spec
CONSTANTS
MaxTop = 3
Full = TRUE
INVARIANTS Emit
CHECK_DEADLOCK FALSE
