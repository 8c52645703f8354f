SPECIFICATION Spec
CONSTANTS
  MaxLen = 4
  Letters = {1, 2, 3, 4, 5, 6, 7, 8, 10, 13}
CHECK_DEADLOCK FALSE
