SPECIFICATION Spec
CONSTANT Bound = 2
INVARIANTS MixedProduct Involution
CHECK_DEADLOCK FALSE
