SPECIFICATION Spec
CONSTANTS Depth = 5
          Both = FALSE
VIEW Hidden
INVARIANTS ReadBack Default Fresh
PROPERTIES Preserve
