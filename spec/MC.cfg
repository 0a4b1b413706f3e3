CONSTANTS
  Starts <- S
  Offers <- O
  Closing <- C
  Bound = 3
SPECIFICATION Spec
INVARIANT Inv
PROPERTY Isolation Held
CHECK_DEADLOCK FALSE
