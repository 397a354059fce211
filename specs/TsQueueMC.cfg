SPECIFICATION MCSpec
CONSTANTS
  Actors = {1, 2, 3}
  Qs = {1, 2}
  Budget = 1
INVARIANT Inv
CHECK_DEADLOCK FALSE
