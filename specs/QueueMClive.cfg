SPECIFICATION MCSpec
CONSTANTS
  Actors = {1, 2}
  Qs = {1}
  Budget = 2
  Disps = {0}
  Maxs = {0, 1}
INVARIANT Inv
PROPERTY Completes
CHECK_DEADLOCK FALSE
