SPECIFICATION Spec
CONSTANTS Sizes <- SizesQ Lists <- ListsQ Buffer = 2
INVARIANTS Complete NeverWrong
