SPECIFICATION MCSpec
CONSTANTS
  Actors = {0, 1, 2, 3, 7, 8}
  NIn = 3
  MaxArgs = 3
  Waiters = {7, 8}
INVARIANT Inv
PROPERTY SettlesOnce
CHECK_DEADLOCK FALSE
