SPECIFICATION TSpec
CONSTANTS
  Pools = {1, 2}
  Ids = {101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112}
  Actors = {0, 1, 2, 3, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 201, 202, 203, 204, 205, 206, 207, 208, 209, 210, 211, 212}
INVARIANT Inv
CONSTRAINT Progress1
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
