SPECIFICATION GSpec
CONSTANTS Steps = 4
          Corrections = 2
          Incs = {0, 1, 2, 3}
          DTs = {10000, 5000, 4000}
          Schemes = {"N", "L", "H", "G"}
INVARIANTS Dump
CHECK_DEADLOCK FALSE
