SPECIFICATION TSpec
CONSTANTS
  Frames = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16}
  Arenas = {0, 1, 2, 3}
  Kinds = {"own", "ff", "launch", "scope", "join"}
INVARIANT Inv
CONSTRAINT Progress1
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
