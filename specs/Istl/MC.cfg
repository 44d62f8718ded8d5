SPECIFICATION MCSpec
CONSTANTS Sim = FALSE
          Depth = 7
VIEW Hidden
INVARIANTS TypeOK Transferred Assembled Fresh
CHECK_DEADLOCK FALSE
