SPECIFICATION Spec
CONSTANTS
  Co = {1, 2, 3}
  Budget = 5
INVARIANT Inv
CHECK_DEADLOCK FALSE
