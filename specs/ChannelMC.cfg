SPECIFICATION MCSpec
CONSTANTS
  Actors = {1, 2, 3}
  Budget = 2
  Disps = {0}
INVARIANT Inv

CHECK_DEADLOCK FALSE
