SPECIFICATION MCSpec
CONSTANTS Sim = TRUE
          Kinds = {"dense", "sym", "diag", "slu", "umf", "samg", "none"}
          Depth = 40
          Mode = "all"
INVARIANTS Emit Represents
CHECK_DEADLOCK FALSE
