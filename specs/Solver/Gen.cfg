SPECIFICATION GSpec
CONSTANTS Steps = 5
          Length = 3
          Forces = {5, 3, 2, 1}
          Kinds = {"N", "K"}
INVARIANTS Dump
CHECK_DEADLOCK FALSE
