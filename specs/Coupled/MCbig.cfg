SPECIFICATION Spec
CONSTANTS
MaxOps = 3
MaxSteps = 2
Kinds = {"c", "n", "semi"}
Results = {0}
Exhaustive = TRUE
INVARIANTS Success Stops Planes Lock Limit Lost Until Once Shared
VIEW View
CHECK_DEADLOCK FALSE
