SPECIFICATION MCSpec
CONSTANTS
  Actors = {1, 2}
  Qs = {1}
  Budget = 3
  Disps = {0}
  Maxs = {0, 1, 2}
INVARIANT Inv
CHECK_DEADLOCK FALSE
