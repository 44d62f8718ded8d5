SPECIFICATION Spec
CONSTANTS
MaxPts = 4
Steps = {0, 1, 2, 4}
Values = {0, 1, 3}
Amps = {0, 1, 3}
Args = {0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 13}
Ramps = {0, 1, 4}
Queries = 0
Exhaustive = TRUE
INVARIANTS Admissible Hits Between Steep OneValue Periodic ZeroSound
CHECK_DEADLOCK FALSE
