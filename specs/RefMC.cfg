SPECIFICATION MCSpec
CONSTANTS Locals = {11, 12, 13}
 Cells = {}
 Objs = {101, 102}
 Clients = {1}
 Actors = {1, 101, 102}
 Budget = 5
 WithFields = TRUE
INVARIANT Inv
PROPERTY DeadStays
CHECK_DEADLOCK FALSE
