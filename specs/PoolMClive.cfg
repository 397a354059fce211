SPECIFICATION MCLive
CONSTANTS
  Pools = {1}
  Clients = {1, 2}
  Ids = {101, 102}
  Actors = {1, 2, 101, 102}
  Sizes = {0, 2}
  Budget = 2
  Threads = {11, 12}
INVARIANT Inv NoneWithoutWorkers
PROPERTY Once ResizeEnds AllRun
CHECK_DEADLOCK FALSE
