SPECIFICATION MCSpec
CONSTANTS
  Actors = {1, 2}
  Budget = 3
  MaxTime = 1
INVARIANT Inv
PROPERTY SettlesOnce
CHECK_DEADLOCK FALSE
