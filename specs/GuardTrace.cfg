SPECIFICATION TSpec
CONSTANTS
  Ms = {1, 2}
  Gs = {1, 2, 3}
  Ws = {1, 2, 3}
INVARIANT Inv
CONSTRAINT Progress1
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
