SPECIFICATION Spec
CONSTANT Bound = 2
INVARIANT Inv
PROPERTY Kept_
CHECK_DEADLOCK FALSE
