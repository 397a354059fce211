SPECIFICATION Live
CONSTANTS
  Frames = {1, 2}
  Arenas = {0, 1}
  Kinds = {"own", "ff", "launch", "scope", "join"}
INVARIANT Inv
PROPERTY Returned
CHECK_DEADLOCK FALSE
