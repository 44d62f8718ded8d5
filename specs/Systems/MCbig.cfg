SPECIFICATION Spec
CONSTANTS
  Depth = 7
  Random = FALSE
INVARIANTS SumOfElements MatricesOfElements Untouched Symmetric Equivalent
CHECK_DEADLOCK FALSE
