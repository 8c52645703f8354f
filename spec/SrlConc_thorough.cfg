SPECIFICATION Spec
INVARIANTS NoRace RightEntry Exclusive OwnResult
PROPERTY AllDone
CONSTANTS
  Callers = {1, 2, 3, 4}
  Types = {"T", "U"}
  Cache = "atomic"
  GiveBack = "last"
CHECK_DEADLOCK FALSE
