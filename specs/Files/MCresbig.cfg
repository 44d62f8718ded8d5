SPECIFICATION Spec
CONSTANTS Depth = 6
          Both = TRUE
VIEW Hidden
INVARIANTS ReadBack Default Fresh
PROPERTIES Preserve
