SPECIFICATION Spec
CONSTANT Bound = 2
INVARIANT Inv
PROPERTY Only
CHECK_DEADLOCK FALSE
