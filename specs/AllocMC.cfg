SPECIFICATION Spec
CONSTANTS
  Frames = {1, 2}
  Arenas = {0, 1}
  Kinds = {"own", "ff", "launch", "scope", "join"}
INVARIANT Inv
PROPERTY GoneStays
CHECK_DEADLOCK FALSE
