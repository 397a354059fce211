SPECIFICATION MCSpec
CONSTANTS Sigs = {1}
 Slots = {101, 102}
 OpIds = {11, 12, 13, 14, 15, 16, 21, 22, 23, 24, 25, 26}
 Clients = {1, 2}
 Budget = 3
 Manager = FALSE
 Moves = FALSE
INVARIANT Inv
PROPERTY CalledAll
CHECK_DEADLOCK FALSE
