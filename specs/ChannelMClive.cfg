SPECIFICATION MCSpec
CONSTANTS
  Actors = {1, 2, 3}
  Budget = 1
  Disps = {0}
INVARIANT Inv
PROPERTY CloseEnds
CHECK_DEADLOCK FALSE
