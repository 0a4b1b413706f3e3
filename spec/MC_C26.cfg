SPECIFICATION Spec
CONSTANT Bound = 2
INVARIANT Inv
PROPERTY OnePlace
CHECK_DEADLOCK FALSE
