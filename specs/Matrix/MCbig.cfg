SPECIFICATION MCSpec
CONSTANTS Sim = FALSE
          Kinds = {"dense", "diag", "slu", "samg", "none"}
          Depth = 4
          Mode = "all"
INVARIANTS TypeOK Represents Alike Ended
VIEW Hidden
CHECK_DEADLOCK FALSE
