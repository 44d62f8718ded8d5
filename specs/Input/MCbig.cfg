SPECIFICATION Spec
CONSTANTS
MaxTop = 3
Full = TRUE
INVARIANTS Found Once Ordered Prior Reported Overrides Geometry
CHECK_DEADLOCK FALSE
