SPECIFICATION TSpec
CONSTANTS
  Clients = {0, 1, 2, 3}
  Tasks = {101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112}
  Slots = {10, 11, 12, 20, 21, 22, 30, 31, 32, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112}
INVARIANT Inv
CONSTRAINT Progress1
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
