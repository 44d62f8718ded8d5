SPECIFICATION TSpec
INVARIANTS OnlyFree Composed OffComposed
