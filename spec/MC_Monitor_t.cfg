SPECIFICATION Spec
CONSTANTS NF = 3 MaxLen = 10 MaxDepth = 4
INVARIANTS Elapsed NonNegative OneEach Behaviour
CHECK_DEADLOCK FALSE
