SPECIFICATION Spec
CONSTANTS NS = 2 Len1 = 6
INVARIANTS Alone DictKept Complete
PROPERTY Others
CHECK_DEADLOCK FALSE
