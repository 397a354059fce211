SPECIFICATION Spec
CONSTANTS
  Co = {1, 2, 3, 4}
  Budget = 4
INVARIANT Inv
CHECK_DEADLOCK FALSE
