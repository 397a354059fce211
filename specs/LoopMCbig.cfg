SPECIFICATION MCSpec
CONSTANTS Disps = {1, 2}
 Ids = {101, 102, 103}
 Clients = {1, 2}
 Runners = {11}
 Actors = {1, 2, 11, 101, 102, 103}
 Threads = {1, 2, 11}
 Budget = 2
INVARIANT Inv
PROPERTY Once
CHECK_DEADLOCK FALSE
