SPECIFICATION Spec
CONSTANTS Depth = 5
VIEW View
INVARIANTS History Sizes Odd
PROPERTY RoundTrip
CHECK_DEADLOCK FALSE
