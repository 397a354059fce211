SPECIFICATION MCLive
CONSTANTS
  Ids = {101, 102}
  Clients = {1, 2}
  Toks = {11}
  Main = 1
  MaxTime = 2
  Budget = 1
  Strict = TRUE
  Delays = {0, 1}
INVARIANT Inv
PROPERTY Completes Destroyed
CHECK_DEADLOCK FALSE
