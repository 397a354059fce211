SPECIFICATION TSpec
CONSTANTS
  Ids = {101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112}
  Clients = {0, 1, 2, 3, 4, 5}
  Toks = {11, 12}
INVARIANT Inv
CONSTRAINT Progress1
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
