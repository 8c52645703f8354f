SPECIFICATION Spec
INVARIANT Pure
CONSTANTS
  Objects = {o1, o2}
  MaxCalls = 6
  ResetAt = "start"
CHECK_DEADLOCK FALSE
