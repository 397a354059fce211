SPECIFICATION TSpec
CONSTANTS
  Sigs = {1, 2, 3}
  Slots <- Nat
  OpIds <- Nat
INVARIANT Inv
CONSTRAINT Progress1
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
