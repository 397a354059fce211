SPECIFICATION Spec
CONSTANTS
  Tasks = {1, 2, 3}
  Threads = {0, 1}
  Results = {7}
  MainTh = 0
INVARIANT Inv
PROPERTY Once
CHECK_DEADLOCK FALSE
