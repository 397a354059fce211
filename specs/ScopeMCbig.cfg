SPECIFICATION MCSpec
CONSTANTS
  Clients = {1, 2}
  Tasks = {101, 102, 103}
  Futs = {201}
  Budget = 2
INVARIANT Inv
PROPERTY NotEarly
CHECK_DEADLOCK FALSE
