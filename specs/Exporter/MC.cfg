SPECIFICATION Spec
CONSTANTS Depth = 5
VIEW Hidden
INVARIANTS Numbers OnlyOnce First Strides
PROPERTIES Undefined
