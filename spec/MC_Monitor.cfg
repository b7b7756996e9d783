SPECIFICATION Spec
CONSTANTS NF = 3 MaxLen = 8 MaxDepth = 4
INVARIANTS Elapsed NonNegative OneEach Behaviour
CHECK_DEADLOCK FALSE
