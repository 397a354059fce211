SPECIFICATION Spec
CONSTANTS
  Ms = {1, 2}
  Gs = {1, 2, 3}
  Ws = {1, 2}
INVARIANT Inv
CHECK_DEADLOCK FALSE
