SPECIFICATION MCSpec
CONSTANTS
  Ids = {101, 102}
  Clients = {1, 2}
  Toks = {11}
  Main = 1
  MaxTime = 2
  Budget = 2
  Strict = FALSE
  Delays = {0, 1}
INVARIANT Inv
PROPERTY NeverBack
CHECK_DEADLOCK FALSE
