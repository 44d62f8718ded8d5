SPECIFICATION MCSpec
CONSTANTS Sim = TRUE
          Kinds = {"dense", "sym", "diag", "slu", "umf", "samg", "none"}
          Depth = 30
          Mode = "solve"
INVARIANTS Emit Represents
CHECK_DEADLOCK FALSE
