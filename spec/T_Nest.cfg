SPECIFICATION Spec
INVARIANT Within
CHECK_DEADLOCK FALSE
