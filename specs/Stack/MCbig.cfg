SPECIFICATION Spec
CONSTANTS Depth = 7
VIEW View
INVARIANTS History Sizes Odd
PROPERTY RoundTrip
CHECK_DEADLOCK FALSE
