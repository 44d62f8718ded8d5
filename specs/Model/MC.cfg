SPECIFICATION MCSpec
CONSTANTS Depth = 2
          Rich = FALSE
VIEW Hidden
INVARIANTS OnlyFree Composed OffComposed Projected NoWork
