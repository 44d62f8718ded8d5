SPECIFICATION MCSpec
CONSTANTS Steps = 1
          Length = 4
          Forces = {3, 1}
          Kinds = {"N", "K"}
INVARIANTS Accepted EachOnce Rejected Failed Bounded Tangents NeverStale Progress Latest
CHECK_DEADLOCK FALSE
