SPECIFICATION MCSpec
CONSTANTS Sizes = {1, 2, 3, 4, 5}
          Orders = {1, 2}
          Threads = {1, 2, 3}
          Mode = "s"
INVARIANTS GroupsValid SameResult NoLostUpdate FilterValid
CHECK_DEADLOCK FALSE
