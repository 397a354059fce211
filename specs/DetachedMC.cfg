SPECIFICATION MCSpec
CONSTANTS
  Clients = {1, 2}
  Tasks = {101}
  Slots = {10, 11, 20}
  Kinds = {"lazy", "eager", "launch", "future"}
  Budget = 2
  Threads = {1, 2, 3}
INVARIANT Inv
PROPERTY Once
CHECK_DEADLOCK FALSE
