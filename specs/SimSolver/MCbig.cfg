SPECIFICATION Spec
CONSTANTS
MaxRuns = 3
Kinds = {"sol", "ts", "stat", "adi"}
CrashAt = "any"
Exhaustive = TRUE
INVARIANTS Once Same Exported Complete Status Levels0 Ends
VIEW View
CHECK_DEADLOCK FALSE
