SPECIFICATION MCSpec
CONSTANTS Depth = 3
          Rich = FALSE
VIEW Hidden
INVARIANTS OnlyFree Composed OffComposed Projected NoWork
