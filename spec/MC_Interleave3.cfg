SPECIFICATION Spec
CONSTANTS NS = 3 Len1 = 3
INVARIANTS Alone DictKept Complete
PROPERTY Others
CHECK_DEADLOCK FALSE
