SPECIFICATION MCSpec
CONSTANTS
  Clients = {0, 1}
  Gens = {101, 102}
  Slots = {10, 11}
  Budget = 3
  Threads = {0, 1, 2}
  MapBy = 500
INVARIANT Inv
PROPERTY Once
CHECK_DEADLOCK FALSE
