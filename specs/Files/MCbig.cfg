SPECIFICATION Spec
CONSTANTS Depth = 7
          Both = FALSE
VIEW Hidden
INVARIANTS ReadBack Default Fresh
PROPERTIES Preserve
