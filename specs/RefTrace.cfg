SPECIFICATION TSpec
CONSTANTS
  Locals = {1, 2, 3, 11, 12, 13, 21, 22, 23, 31, 32, 33}
  Cells = {901, 902}
  Objs = {101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112}
  Actors = {0, 1, 2, 3, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112}
INVARIANT Inv
CONSTRAINT Progress1
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
