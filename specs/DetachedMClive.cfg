SPECIFICATION MCLive
CONSTANTS
  Clients = {1, 2}
  Tasks = {101}
  Slots = {10, 20}
  Kinds = {"lazy", "eager", "launch", "future"}
  Budget = 2
  Threads = {1, 2, 3}
INVARIANT Inv
PROPERTY Completes Freed FutureComes
CHECK_DEADLOCK FALSE
