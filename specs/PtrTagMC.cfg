SPECIFICATION MSpec
CONSTANTS
  Words = {1, 2}
  Aligns = {1, 2, 4, 8}
  Limit = 24
INVARIANT Inv
INVARIANT RoundTrip
INVARIANT Tags
INVARIANT Always
PROPERTY Kept
CHECK_DEADLOCK FALSE
