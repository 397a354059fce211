SPECIFICATION TSpec
CONSTANTS
  Actors = {0, 1, 2, 3, 4, 5, 6, 7, 8}
  Disps = {0, 1, 2}
INVARIANT Inv
CONSTRAINT Progress1
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
