SPECIFICATION MCSpec
CONSTANTS Steps = 2
          Length = 1
          Forces = {3}
          Kinds = {"N", "K"}
INVARIANTS Accepted EachOnce Rejected Failed Bounded Tangents NeverStale Progress Latest
CHECK_DEADLOCK FALSE
