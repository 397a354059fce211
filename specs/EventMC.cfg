SPECIFICATION MCSpec
CONSTANTS
  Actors = {1, 2, 3}
  Disps = {0, 1}
  Kinds = {"sm", "mm", "sa", "ma", "latch"}
  Budget = 2
  InitCount = 2
INVARIANT Inv
CHECK_DEADLOCK FALSE
