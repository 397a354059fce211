SPECIFICATION TSpec
CONSTANTS
  Clients = {0, 1, 2, 3, 4}
  Tasks = {101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112}
  Futs = {201, 202, 203, 204}
INVARIANT Inv
CONSTRAINT Progress1
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
