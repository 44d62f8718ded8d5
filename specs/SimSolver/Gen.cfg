SPECIFICATION Spec
CONSTANTS
MaxRuns = 3
Kinds = {"sol", "ts", "stat", "adi"}
CrashAt = "solve"
Exhaustive = FALSE
INVARIANTS Emit
CHECK_DEADLOCK FALSE
