SPECIFICATION Spec
CONSTANTS
  Depth = 6
  Random = FALSE
INVARIANTS SumOfElements MatricesOfElements Untouched Symmetric Equivalent
CHECK_DEADLOCK FALSE
