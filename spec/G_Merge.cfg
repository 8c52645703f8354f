SPECIFICATION Spec
INVARIANT Bounded
PROPERTY Frozen
CONSTANT MaxLen = 4
CHECK_DEADLOCK FALSE
