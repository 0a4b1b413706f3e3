SPECIFICATION Spec
CONSTANT Bound = 4
INVARIANTS Agree InRange Ends
PROPERTY Ordered
CHECK_DEADLOCK FALSE
