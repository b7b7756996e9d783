SPECIFICATION Spec
CONSTANT Confs <- ConfsT
INVARIANTS Partition Balanced Right NeverWrong OneMessage
