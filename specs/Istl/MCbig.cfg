SPECIFICATION MCSpec
CONSTANTS Sim = FALSE
          Depth = 9
VIEW Hidden
INVARIANTS TypeOK Transferred Assembled Fresh
CHECK_DEADLOCK FALSE
