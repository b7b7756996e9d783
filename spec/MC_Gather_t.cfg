SPECIFICATION Spec
CONSTANTS Sizes <- SizesT Lists <- ListsT Buffer = 3
INVARIANTS Complete NeverWrong
