SPECIFICATION Spec
CONSTANTS Depth = 9
INVARIANT Emit
