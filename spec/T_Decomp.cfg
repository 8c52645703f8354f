SPECIFICATION Spec
INVARIANT MachineSane
CHECK_DEADLOCK FALSE
