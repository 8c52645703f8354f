SPECIFICATION Spec
CONSTANTS
  L = 9
  MaxCopy = 1
  Counted = TRUE
INVARIANTS PendingRight Bounded
PROPERTY Ends
CHECK_DEADLOCK FALSE
