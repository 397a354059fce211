SPECIFICATION MCSpec
CONSTANTS
  Actors = {1, 2, 3}
  Budget = 3
INVARIANT Inv
PROPERTY Progress NoBarging
CHECK_DEADLOCK FALSE
