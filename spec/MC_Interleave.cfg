SPECIFICATION Spec
CONSTANTS NS = 2 Len1 = 4
INVARIANTS Alone DictKept Complete
PROPERTY Others
CHECK_DEADLOCK FALSE
