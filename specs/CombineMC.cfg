SPECIFICATION MCSpec
CONSTANTS
  Actors = {0, 1, 2, 7}
  NIn = 2
  MaxArgs = 2
  Waiters = {7}
INVARIANT Inv
PROPERTY SettlesOnce Served
CHECK_DEADLOCK FALSE
