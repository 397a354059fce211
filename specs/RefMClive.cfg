SPECIFICATION MCLive
CONSTANTS Locals = {11, 12, 21, 22}
 Cells = {901}
 Objs = {101, 102}
 Clients = {1, 2}
 Actors = {1, 2, 101, 102}
 Budget = 2
 WithFields = FALSE
INVARIANT Inv
PROPERTIES Dies Ends
PROPERTY DeadStays
CHECK_DEADLOCK FALSE
