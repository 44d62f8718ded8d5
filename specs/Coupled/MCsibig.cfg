SPECIFICATION Spec
CONSTANTS
MaxOps = 2
MaxSteps = 1
Kinds = {"si"}
Results = {0, 1, 3, 4}
Exhaustive = TRUE
INVARIANTS Success Stops Planes Lock Limit Lost Until Once Shared
VIEW View
CHECK_DEADLOCK FALSE
