CONSTANTS
  Starts <- S
  Offers <- O
  Closing <- C
  Bound = 2
  MaxD = 6
SPECIFICATION Spec
INVARIANT Inv
PROPERTY Isolation Held
CHECK_DEADLOCK FALSE
