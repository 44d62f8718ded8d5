SPECIFICATION MCSpec
CONSTANTS Sim = TRUE
          Kinds = {"slu", "umf", "samg"}
          Depth = 16
          Mode = "pattern"
INVARIANTS Emit Represents
CHECK_DEADLOCK FALSE
