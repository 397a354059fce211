SPECIFICATION MCLive
CONSTANTS
  Clients = {0, 1}
  Gens = {101}
  Slots = {10, 11}
  Budget = 4
  Threads = {0, 1, 2}
  MapBy = 500
INVARIANT Inv
PROPERTY Comes Freed
CHECK_DEADLOCK FALSE
