SPECIFICATION Spec
CONSTANTS
MaxPts = 4
Steps = {0, 1, 2, 4}
Values = {0, 1, 3, 4, 6}
Amps = {0, 1, 2, 3}
Args = {0, 1, 2, 3, 4, 5, 6, 7, 8, 12}
Ramps = {0, 1, 2, 4, 8}
Queries = 12
Exhaustive = FALSE
INVARIANTS Emit
CHECK_DEADLOCK FALSE
