SPECIFICATION TSpec
CONSTANTS
  Actors = {0, 1, 2, 3, 4, 7}
  Qs = {1, 2, 3, 4, 5, 6}
CONSTRAINT Progress1
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
