SPECIFICATION Spec
CONSTANTS
MaxTop = 3
Full = FALSE
INVARIANTS Found Once Ordered Prior Reported Overrides Geometry
CHECK_DEADLOCK FALSE
