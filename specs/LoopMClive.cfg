SPECIFICATION MCLive
CONSTANTS Disps = {1}
 Ids = {101, 102}
 Clients = {1}
 Runners = {11}
 Actors = {1, 11, 101, 102}
 Threads = {1, 11}
 Budget = 2
PROPERTIES StopEnds Drains
CHECK_DEADLOCK FALSE
