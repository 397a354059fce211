SPECIFICATION MCSpec
CONSTANTS
  Actors = {1, 2, 3}
  Qs = {1}
  Budget = 2
  Disps = {0}
  Maxs = {0, 1, 2}
INVARIANT Inv
CHECK_DEADLOCK FALSE
