SPECIFICATION Spec
CONSTANTS
MaxOps = 3
MaxSteps = 1
Kinds = {"si", "c", "n", "semi"}
Results = {0, 1, 3, 4}
Exhaustive = TRUE
INVARIANTS Success Stops Planes Lock Limit Lost Until Once Shared
VIEW View
CHECK_DEADLOCK FALSE
