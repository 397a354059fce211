SPECIFICATION Spec
CONSTANTS
  Frames = {1, 2, 3}
  Arenas = {0, 1}
  Kinds = {"own", "ff"}
INVARIANT Inv
PROPERTY GoneStays
CHECK_DEADLOCK FALSE
