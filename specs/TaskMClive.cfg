SPECIFICATION MCLive
CONSTANTS
  Clients = {0, 1, 2}
  Tasks = {101, 102}
  Slots = {10, 20, 101, 102}
  Budget = 2
  Threads = {0, 1, 2}
INVARIANT Inv Frame
PROPERTY Comes Freed
CHECK_DEADLOCK FALSE
