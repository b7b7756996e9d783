SPECIFICATION Spec
CONSTANT Confs <- ConfsQ
INVARIANTS Partition Balanced Right NeverWrong OneMessage
