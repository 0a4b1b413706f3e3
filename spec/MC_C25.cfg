CONSTANTS
  Programs <- P
  Bound = 2
SPECIFICATION Spec
INVARIANT Inv Alone
CHECK_DEADLOCK FALSE
