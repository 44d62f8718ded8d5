SPECIFICATION Spec
CONSTANTS N = 9
          Dirs = {1, 2, 4}
INVARIANTS Emit
CHECK_DEADLOCK FALSE
