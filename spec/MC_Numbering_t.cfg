SPECIFICATION Spec
CONSTANT Bound <- BoundT
INVARIANTS OneEach Shells NormOrder Formula1 Formula2 Involution Everything
CHECK_DEADLOCK FALSE
