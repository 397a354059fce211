SPECIFICATION TSpec
CONSTANTS
  Tasks = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20}
  Threads = {0, 1, 2, 3}
  Results = {0}
  MainTh = 0
INVARIANT Inv
CONSTRAINT Progress1
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
