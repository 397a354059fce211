SPECIFICATION Live
CONSTANTS
  Scopes = {1, 2}
  Items = {1, 2, 3}
INVARIANT Inv
PROPERTY Ends
CHECK_DEADLOCK FALSE
