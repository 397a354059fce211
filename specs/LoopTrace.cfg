SPECIFICATION TSpec
CONSTANTS
  Disps = {1, 2}
  Ids = {101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112}
  Actors = {0, 1, 2, 3, 11, 12, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112}
  Threads = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9}
INVARIANT Inv
CONSTRAINT Progress1
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
