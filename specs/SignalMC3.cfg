SPECIFICATION MCSpec
CONSTANTS Sigs = {1, 2}
 Slots = {101, 102, 103}
 OpIds = {11, 12, 13, 14, 15, 16, 21, 22, 23, 24, 25, 26}
 Clients = {1}
 Budget = 4
 Manager = TRUE
 Moves = TRUE
INVARIANT Inv
PROPERTY CalledAll
CHECK_DEADLOCK FALSE
