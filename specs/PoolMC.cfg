SPECIFICATION MCSpec
CONSTANTS
  Pools = {1, 2}
  Clients = {1, 2}
  Ids = {101, 102}
  Actors = {1, 2, 101, 102}
  Sizes = {0, 1, 2}
  Budget = 1
  Threads = {11, 12, 21, 22}
INVARIANT Inv NoneWithoutWorkers
PROPERTY Once
CHECK_DEADLOCK FALSE
