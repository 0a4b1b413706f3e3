CONSTANTS
  Starts <- S
  Offers <- O
  Closing <- C
  Bound = 3
SPECIFICATION Spec
INVARIANT Inv Reversed
PROPERTY Isolation Held
CHECK_DEADLOCK FALSE
