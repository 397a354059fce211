SPECIFICATION Live
CONSTANTS
  Tasks = {1, 2, 3}
  Threads = {0, 1}
  Results = {7}
  MainTh = 0
INVARIANT Inv
PROPERTY Returns
PROPERTY Continues
CHECK_DEADLOCK FALSE
