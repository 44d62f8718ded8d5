SPECIFICATION Spec
CONSTANTS
MaxOps = 7
MaxSteps = 3
Kinds = {"c", "n", "semi", "si"}
Results = {0, 1, 2, 3, 4}
Exhaustive = FALSE
INVARIANTS Emit
CHECK_DEADLOCK FALSE
