SPECIFICATION TSpec
CONSTANTS
  Co = {1}
INVARIANT Inv
CONSTRAINT Progress1
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
