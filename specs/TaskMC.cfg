SPECIFICATION MCSpec
CONSTANTS
  Clients = {0, 1}
  Tasks = {101, 102}
  Slots = {10, 11, 101, 102}
  Budget = 3
  Threads = {0, 1, 2}
INVARIANT Inv Frame
PROPERTY Once
CHECK_DEADLOCK FALSE
