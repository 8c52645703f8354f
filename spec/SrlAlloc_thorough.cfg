SPECIFICATION Spec
CONSTANTS
  L = 12
  MaxCopy = 2
  Counted = TRUE
INVARIANTS PendingRight Bounded
PROPERTY Ends
CHECK_DEADLOCK FALSE
