SPECIFICATION MCSpec
CONSTANTS
  Actors = {1, 2, 3}
  Qs = {1, 2}
  Budget = 1
  Disps = {0}
  Maxs = {0, 1}
INVARIANT Inv
PROPERTY Completes
CHECK_DEADLOCK FALSE
