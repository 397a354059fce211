SPECIFICATION MCSpec
CONSTANTS
  Clients = {1, 2}
  Cbs = {101, 102}
  Slots = {0, 1, 2}
  States = {1, 2}
  Budget = 2
  CbBudget = 1
INVARIANT Inv
PROPERTY Once
CHECK_DEADLOCK FALSE
