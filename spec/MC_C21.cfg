SPECIFICATION Spec
CONSTANT Bound = 2
INVARIANT Inv
PROPERTY Closed
CHECK_DEADLOCK FALSE
