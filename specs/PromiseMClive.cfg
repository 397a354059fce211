SPECIFICATION MCSpec
CONSTANTS
  Actors = {1, 2, 3}
  Budget = 1
  MaxTime = 1
INVARIANT Inv
PROPERTY SettlesOnce Served Released
CHECK_DEADLOCK FALSE
