SPECIFICATION Spec
CONSTANTS Depth = 4
          Both = TRUE
VIEW Hidden
INVARIANTS ReadBack Default Fresh
PROPERTIES Preserve
