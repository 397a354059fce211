SPECIFICATION MCLive
CONSTANTS
  Clients = {1}
  Tasks = {101, 102}
  Futs = {201}
  Budget = 2
INVARIANT Inv
PROPERTY JoinEnds FutEnds
CHECK_DEADLOCK FALSE
