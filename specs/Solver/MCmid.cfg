SPECIFICATION MCSpec
CONSTANTS Steps = 1
          Length = 3
          Forces = {3}
          Kinds = {"N", "K"}
INVARIANTS Accepted EachOnce Rejected Failed Bounded Tangents NeverStale Progress Latest
CHECK_DEADLOCK FALSE
