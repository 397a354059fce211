SPECIFICATION MCLive
CONSTANTS
  Clients = {1, 2}
  Cbs = {101}
  Slots = {0, 1, 2}
  States = {1, 2}
  Budget = 2
  CbBudget = 1
INVARIANT Inv
PROPERTY Returned AllRun
CHECK_DEADLOCK FALSE
