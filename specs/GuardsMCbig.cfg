SPECIFICATION Spec
CONSTANTS
  Scopes = {1, 2}
  Items = {1, 2, 3, 4}
INVARIANT Inv
PROPERTY OneTurn
CHECK_DEADLOCK FALSE
