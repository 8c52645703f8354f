SPECIFICATION Spec
INVARIANT Bounded
PROPERTY Frozen
CONSTANT MaxLen = 6
CHECK_DEADLOCK FALSE
