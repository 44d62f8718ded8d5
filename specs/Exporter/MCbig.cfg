SPECIFICATION Spec
CONSTANTS Depth = 7
VIEW Hidden
INVARIANTS Numbers OnlyOnce First Strides
PROPERTIES Undefined
