SPECIFICATION TSpec
CONSTANTS
  Clients = {0, 1, 2, 3, 4}
  Cbs = {101, 102, 103, 104, 105, 106, 107, 108}
  Slots = {0, 1, 2, 3, 4, 5, 6, 7, 8}
  States = {1, 2, 3, 4, 5, 6, 7, 8}
INVARIANT Inv
CONSTRAINT Progress1
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
